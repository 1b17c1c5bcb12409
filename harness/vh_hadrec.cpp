// Episodes of the HADREC environment.  vh_hadrec CASEFILE OUTPREFIX INPUT
//   case ID | start (power flow, transfer, initialisation) [fault BUS BEGIN END] | steps N
//   line F T CKT | linebus B | shed B ID X | gen B ID | dp B X | dq B X | yshed B X | ask (powers and zone totals) | genpar B ID NAME X
#include "vh.hpp"
#include "gridpack/include/gridpack.hpp"
#include "gridpack/applications/modules/hadrec/hadrec_app_module.hpp"
using namespace vh;

int main(int argc, char **argv) {
  if (argc < 4) harnessFail("usage");
  gridpack::NoPrint::instance();
  gridpack::Environment env(argc, argv);
  quietStdout();
  {
    Out out(argv[2]);
    std::ifstream in(argv[1]);
    if (!in) harnessFail("cases");
    std::string l, id;
    std::unique_ptr<gridpack::hadrec::HADRECAppModule> h;
    std::vector<int> gb, lb, vb; std::vector<std::string> gi, li;
    int n = 0;
    while (std::getline(in, l)) {
      std::vector<std::string> t; std::istringstream is(l); std::string w; while (is >> w) t.push_back(w);
      if (t.empty()) continue;
      if (t[0] == "case") { id = t[1]; out.begin(id); n = 0; if (!h) h.reset(new gridpack::hadrec::HADRECAppModule()); continue; }
      J j; j.k("t", "op").k("case", id).k("n", n++).k("op", t[0]);
      gridpack::hadrec::HADRECAction a;
      bool act = true;
      if (t[0] == "line") { a.actiontype = 1; a.brch_from_bus_number = atoi(t[1].c_str()); a.brch_to_bus_number = atoi(t[2].c_str()); a.branch_ckt = t[3]; }
      else if (t[0] == "linebus") { a.actiontype = 1; a.bus_number = atoi(t[1].c_str()); }
      else if (t[0] == "shed") { a.actiontype = 0; a.bus_number = atoi(t[1].c_str()); a.componentID = t[2]; a.percentage = atof(t[3].c_str()); }
      else if (t[0] == "gen") { a.actiontype = 2; a.bus_number = atoi(t[1].c_str()); a.componentID = t[2]; }
      else if (t[0] == "dp") { a.actiontype = 3; a.bus_number = atoi(t[1].c_str()); a.percentage = atof(t[2].c_str()); }
      else if (t[0] == "dq") { a.actiontype = 4; a.bus_number = atoi(t[1].c_str()); a.percentage = atof(t[2].c_str()); }
      else if (t[0] == "yshed") { a.actiontype = 9; a.bus_number = atoi(t[1].c_str()); a.percentage = atof(t[2].c_str()); }
      else act = false;
      if (act) h->applyAction(a);
      else if (t[0] == "start") {
        std::vector<gridpack::dynamic_simulation::Event> f;
        if (t.size() > 1) {
          gridpack::dynamic_simulation::Event e;
          e.isBus = true; e.isBusFault = true; e.bus_idx = atoi(t[2].c_str()); e.start = atof(t[3].c_str()); e.end = atof(t[4].c_str()); e.step = 0.005;
          f.push_back(e);
        }
        h->solvePowerFlowBeforeDynSimu(argv[3], 0);
        h->transferPFtoDS();
        h->initializeDynSimu(f);
        h->getObservationLists(gb, gi, lb, li, vb);
        j.k("gb", gb).k("gi", gi).k("lb", lb).k("li", li).k("vb", vb);
      } else if (t[0] == "steps") {
        std::string rows = "[";
        int k = 0;
        for (; k < atoi(t[1].c_str()) && !h->isDynSimuDone(); k++) {
          h->executeDynSimuOneStep();
          if (k) rows += ",";
          rows += J::v(h->getObservations());
        }
        j.raw("rows", rows + "]").k("done", h->isDynSimuDone());
      } else if (t[0] == "ask") {
        std::vector<double> P, Q, ok;
        for (size_t i = 0; i < gb.size(); i++) { double p = 0, q = 0; ok.push_back(h->getGeneratorPower(gb[i], gi[i], p, q)); P.push_back(p); Q.push_back(q); }
        j.k("gp", P).k("gq", Q).k("gok", ok);
        P.clear(); Q.clear(); ok.clear();
        for (size_t i = 0; i < vb.size(); i++) { double p = 0, q = 0; ok.push_back(h->getBusTotalLoadPower(vb[i], p, q)); P.push_back(p); Q.push_back(q); }
        j.k("lp", P).k("lq", Q).k("lok", ok);
        std::vector<int> z; P.clear(); Q.clear();
        bool b = h->getZoneLoads(P, Q, z);
        j.k("zl", b).k("zlz", z).k("zlp", P).k("zlq", Q);
        z.clear(); P.clear(); Q.clear();
        b = h->getZoneGeneratorPower(P, Q, z);
        j.k("zg", b).k("zgz", z).k("zgp", P).k("zgq", Q);
      } else harnessFail("op");
      out.rec(j);
    }
    h.reset();
    out.done();
  }
  return 0;
}
