// Control blocks of the dynamic models.  vh_blk CASEFILE OUTPREFIX (format as for vh_util, kind blk)
#include "vh.hpp"
#include <memory>
#include "gridpack/environment/environment.hpp"
#include "applications/modules/dynamic_simulation_full_y/cblock.hpp"
#include "applications/modules/dynamic_simulation_full_y/dblock.hpp"
using namespace vh;
typedef std::vector<std::string> Toks;

int main(int argc, char **argv) {
  if (argc < 3) harnessFail("usage");
  gridpack::Environment env(argc, argv);
  {
    Out out(argv[2]);
    std::ifstream in(argv[1]);
    if (!in) harnessFail("cases");
    std::string l, id;
    std::unique_ptr<Cblock> c; std::unique_ptr<GainLimiter> gl; std::unique_ptr<Slope> sl; std::unique_ptr<Deadband> db; std::unique_ptr<PiecewiseSlope> ps; std::unique_ptr<LVGate> lv; std::unique_ptr<HVGate> hv;
    std::string kind;
    int n = 0;
    while (std::getline(in, l)) {
      Toks t; std::istringstream is(l); std::string w; while (is >> w) t.push_back(w);
      if (t.empty()) continue;
      std::vector<double> a; for (size_t i = 1; i < t.size(); i++) a.push_back(atof(t[i].c_str()));
      if (t[0] == "case") { id = t[1]; out.begin(id); n = 0; continue; }
      J j; j.k("t", "op").k("case", id).k("n", n++);
      if (t[0] == "new") {
        kind = t[1]; a.erase(a.begin()); double *p = a.data(); size_t k = a.size();
        c.reset();
        if (kind == "filter") { Filter *f = new Filter; c.reset(f); if (k == 2) f->setparams(p[0], p[1]); else if (k == 6) f->setparams(p[0], p[1], p[2], p[3], p[4], p[5]); else f->setparams(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); }
        else if (kind == "leadlag") { LeadLag *f = new LeadLag; c.reset(f); if (k == 2) f->setparams(p[0], p[1]); else if (k == 6) f->setparams(p[0], p[1], p[2], p[3], p[4], p[5]); else f->setparams(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); }
        else if (kind == "pi") { PIControl *f = new PIControl; c.reset(f); if (k == 2) f->setparams(p[0], p[1]); else if (k == 6) f->setparams(p[0], p[1], p[2], p[3], p[4], p[5]); else f->setparams(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); }
        else if (kind == "integ") { Integrator *f = new Integrator; c.reset(f); if (k == 1) f->setparams(p[0]); else f->setparams(p[0], p[1], p[2]); }
        else if (kind == "gain") { gl.reset(new GainLimiter); if (k == 3) gl->setparams(p[0], p[1], p[2]); else gl->setparams(p[0], p[1], p[2], p[3], p[4]); }
        else if (kind == "slope") { sl.reset(new Slope); sl->setparams(p, p + 2, p[4], p[5]); }
        else if (kind == "dead") { db.reset(new Deadband); db->setparams(p[0], p[1]); }
        else if (kind == "lv") { lv.reset(new LVGate); lv->setparams(p[0]); }
        else if (kind == "hv") { hv.reset(new HVGate); hv->setparams(p[0]); }
        else if (kind == "piece") ps.reset(new PiecewiseSlope);
        else harnessFail("block");
      } else if (t[0] == "points") { int m = (int)a.size() / 2; ps->setparams(m, a.data(), a.data() + m); }
      else if (t[0] == "inv") j.k("y", ps->init_given_y(a[0]));
      else if (t[0] == "initu") j.k("y", c->init_given_u(a[0])).k("x", c->getstate(CORRECTOR));
      else if (t[0] == "inity") j.k("y", c->init_given_y(a[0])).k("x", c->getstate(CORRECTOR));
      else if (t[0] == "init") { c->init(a[0], a[1]); j.k("x", c->getstate(CORRECTOR)); }
      else if (t[0] == "step") {                     // step STAGE(0|1) UPDATE u dt [limits]
        IntegrationStage s = a[0] ? CORRECTOR : PREDICTOR; bool up = a[1] != 0;
        double y = a.size() == 4 ? c->getoutput(a[2], a[3], s, up) : a.size() == 8 ? c->getoutput(a[2], a[3], a[4], a[5], a[6], a[7], s, up)
                 : c->getoutput(a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], s, up);
        j.k("y", y); if (up) j.k("x", c->getstate(s));
      } else if (t[0] == "out") {
        double y = 0;
        if (c) y = c->getoutput(a[0]);
        else if (kind == "gain") y = a.size() == 1 ? gl->getoutput(a[0]) : gl->getoutput(a[0], a[1], a[2]);
        else if (kind == "slope") y = sl->getoutput(a[0]); else if (kind == "dead") y = db->getoutput(a[0]);
        else if (kind == "lv") y = lv->getoutput(a[0]); else if (kind == "hv") y = hv->getoutput(a[0]); else y = ps->getoutput(a[0]);
        j.k("y", y);
      } else if (t[0] == "rate") j.k("y", gl->getoutput(a[0], a[1], a[2] != 0));
      else harnessFail("op");
      out.rec(j);
    }
    out.done();
  }
  return 0;
}
