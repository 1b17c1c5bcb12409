// Runs the real power flow module on network files and dumps every reported result.
// cases: lines "case ID XMLFILE GROUPSIZE op op ..."; see ops below.  A group size divides the
// processes; every group runs the case on its own copy of the network.
#include "vh.hpp"
#include <boost/smart_ptr/shared_ptr.hpp>
#include <ga.h>
#include "gridpack/environment/environment.hpp"
#include "gridpack/configuration/configuration.hpp"
#include "gridpack/applications/modules/powerflow/pf_app_module.hpp"
#include "gridpack/applications/modules/powerflow/pf_factory_module.hpp"
using namespace vh;
using namespace gridpack::powerflow;

static std::string ok(const std::string &t) { std::string s = t; for (auto &c : s) if (c == '_') c = ' '; return s; }

static void dump(Out &out, const std::string &id, const std::string &lab, PFAppModule &app, boost::shared_ptr<PFNetwork> net, int grp) {
  std::vector<std::string> v = app.writeBusString("vr_str"), g = app.writeBusString("gen_str"), f = app.writeBranchString("flow_str");
  if (net->communicator().rank() == 0) {
    J j; j.k("t", "res").k("case", id).k("label", lab).k("grp", grp).k("v", v).k("g", g).k("f", f);
    out.rec(j);
  }
  app.saveData();
  for (int i = 0; i < net->numBuses(); i++) {
    auto d = net->getBusData(i);
    double vm = NAN, va = NAN; int ng = 0;
    bool a = d->getValue("BUS_PF_VMAG", &vm), b = d->getValue("BUS_PF_VANG", &va);
    d->getValue(GENERATOR_NUMBER, &ng);
    std::vector<double> p, q; std::vector<std::string> ids;
    for (int k = 0; k < ng; k++) {
      double x = NAN, y = NAN; std::string s;
      d->getValue("GENERATOR_PF_PGEN", &x, k); d->getValue("GENERATOR_PF_QGEN", &y, k); d->getValue(GENERATOR_ID, &s, k);
      p.push_back(x); q.push_back(y); ids.push_back(s);
    }
    J j; j.k("t", "bus").k("case", id).k("label", lab).k("grp", grp).k("n", net->getOriginalBusIndex(i)).k("act", net->getActiveBus(i))
      .k("has", a && b).k("vm", vm).k("va", va).k("p", p).k("q", q).k("ids", ids).k("gv", net->getBus(i)->getVoltage()).k("ga", net->getBus(i)->getPhase())
      .k("pv", net->getBus(i)->isPV());
    out.rec(j);
  }
}

int main(int argc, char **argv) {
  gridpack::Environment env(argc, argv);
  {
    if (argc < 3) harnessFail("usage");
    Out out(argv[2]);
    quietStdout();
    std::ifstream cf(argv[1]);
    std::string line;
    gridpack::parallel::Communicator world;
    while (std::getline(cf, line)) {
      std::istringstream is(line);
      std::string w, id, xml; int gs;
      if (!(is >> w >> id >> xml >> gs) || w != "case") continue;
      out.begin(id);
      std::vector<std::string> ops;
      while (is >> w) ops.push_back(w);
      gridpack::parallel::Communicator comm = gs > 0 ? world.divide(gs) : world;
      int grp = gs > 0 ? out.rank / gs : 0;
      gridpack::utility::Configuration cfg;
      if (!cfg.open(xml, comm)) harnessFail("cannot open configuration");
      boost::shared_ptr<PFNetwork> net(new PFNetwork(comm));
      PFAppModule app;
      app.suppressOutput(true);
      try {
        app.readNetwork(net, &cfg);
        app.initialize();
        std::vector<Contingency> stack;
        for (auto &op : ops) {
          std::vector<std::string> a;
          std::istringstream os(op);
          while (std::getline(os, w, ':')) a.push_back(w);
          J j; j.k("t", "op").k("case", id).k("grp", grp).k("op", op);
          if (a[0] == "solve") j.k("ret", app.solve());
          else if (a[0] == "nl") j.k("ret", app.nl_solve());
          else if (a[0] == "dump") dump(out, id, a[1], app, net, grp);
          else if (a[0] == "reset") app.resetVoltages();
          else if (a[0] == "reload") app.reload();
          else if (a[0] == "set") {
            Contingency c; c.p_name = op;
            if (a[1] == "L") { c.p_type = Branch;
              for (size_t k = 2; k + 2 < a.size(); k += 3) { c.p_from.push_back(atoi(a[k].c_str())); c.p_to.push_back(atoi(a[k+1].c_str())); c.p_ckt.push_back(ok(a[k+2])); c.p_saveLineStatus.push_back(true); }
            } else { c.p_type = Generator;
              for (size_t k = 2; k + 1 < a.size(); k += 2) { c.p_busid.push_back(atoi(a[k].c_str())); c.p_genid.push_back(ok(a[k+1])); c.p_saveGenStatus.push_back(true); }
            }
            j.k("ret", app.setContingency(c)); stack.push_back(c);
          } else if (a[0] == "unset") { j.k("ret", app.unSetContingency(stack.back())); stack.pop_back(); }
          else if (a[0] == "vlim") app.setVoltageLimits(atof(a[1].c_str()), atof(a[2].c_str()));
          else if (a[0] == "vchk") j.k("ret", a.size() > 1 ? app.checkVoltageViolations(atoi(a[1].c_str())) : app.checkVoltageViolations());
          else if (a[0] == "lchk") j.k("ret", a.size() > 1 ? app.checkLineOverloadViolations(atoi(a[1].c_str())) : app.checkLineOverloadViolations());
          else if (a[0] == "lchks") {
            std::vector<int> b1, b2; std::vector<std::string> t; std::vector<bool> v;
            for (size_t k = 1; k + 2 < a.size(); k += 3) { b1.push_back(atoi(a[k].c_str())); b2.push_back(atoi(a[k+1].c_str())); t.push_back(ok(a[k+2])); }
            j.k("ret", app.checkLineOverloadViolations(b1, b2, t, v));
            std::vector<int> vi; for (size_t k = 0; k < v.size(); k++) vi.push_back(v[k]);
            j.k("vals", vi);
          } else if (a[0] == "ignv") app.ignoreVoltageViolations();
          else if (a[0] == "clrv") app.clearVoltageViolations();
          else if (a[0] == "ignl") app.ignoreLineOverloadViolations();
          else if (a[0] == "clrl") app.clearLineOverloadViolations();
          else if (a[0] == "fails") j.k("vals", app.getContingencyFailures());
          else if (a[0] == "qchk") j.k("ret", a.size() > 1 ? app.checkQlimViolations(atoi(a[1].c_str())) : app.checkQlimViolations());
          else if (a[0] == "qclr") app.clearQlimViolations();
          else if (a[0] == "rateb") app.useRateB(a[1] == "1");
          else if (a[0] == "scaleg") app.scaleGeneratorRealPower(atof(a[1].c_str()), atoi(a[2].c_str()), atoi(a[3].c_str()));
          else if (a[0] == "scalel") app.scaleLoadPower(atof(a[1].c_str()), atoi(a[2].c_str()), atoi(a[3].c_str()));
          else if (a[0] == "resetp") app.resetPower();
          else if (a[0] == "loadtot") j.k("val", app.getTotalLoadRealPower(atoi(a[1].c_str()), atoi(a[2].c_str())));
          else if (a[0] == "margins") { double t, l, h; app.getGeneratorMargins(atoi(a[1].c_str()), atoi(a[2].c_str()), &t, &l, &h);
            j.k("val", std::vector<double>{t, l, h}); }
          else if (a[0] == "exp") { std::string f = a[2]; if (a[1] == "23") app.exportPSSE23(f); else if (a[1] == "33") { app.suppressOutput(false); app.exportPSSE33(f); app.suppressOutput(true); } else { app.suppressOutput(false); app.exportPSSE34(f); app.suppressOutput(true); } }
          else harnessFail(("op " + op).c_str());
          out.rec(j);
        }
      } catch (const std::exception &e) {
        J j; j.k("t", "threw").k("case", id).k("grp", grp).k("what", e.what()); out.rec(j);
      }
      J e; e.k("t", "end").k("case", id); out.rec(e);
    }
    out.done();
  }
  return 0;
}
