// Mapper driver: FullMatrixMap, BusVectorMap, GenMatrixMap, GenVectorMap, GenSlabMap.
//   vh_map MODE CASES OUT          MODE: full | bvec | gmat | gvec | slab
#include "vh_netlib.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/mapper/full_map.hpp"
#include "gridpack/mapper/bus_vector_map.hpp"
#include "gridpack/mapper/gen_matrix_map.hpp"
#include "gridpack/mapper/gen_vector_map.hpp"
#include "gridpack/mapper/gen_slab_map.hpp"
#include <boost/serialization/export.hpp>

using namespace gridpack;
using vh::hsh; using vh::hval;
typedef ComplexType Cx;

static uint64_t S = 0;        // seed of the current case
static int EP = 0;            // epoch: selects the values
static int PART = 0;          // 1: components answer partially
static int SQ = 0, FIX = 0, NSL = 1, LOWID = 0;
static std::string BADCALL;   // what a component was asked that it cannot answer

static bool contrib(int orig) { return hsh(S, 5, orig) % 8 != 0; }
static int szI(int orig) { return FIX ? FIX : 1 + (int)((hsh(S, 5, orig) >> 8) % 3); }
static int szJ(int orig) { return FIX ? FIX : SQ ? szI(orig) : 1 + (int)((hsh(S, 5, orig) >> 16) % 3); }
static bool answers(int kind, int id) { return !PART || hsh(S + EP, kind + 20, id) % 3 == 0; }
static double vre(int kind, int id, int i, int j) { return hval(hsh(S + EP, kind, id, i * 16 + j)); }
static double vim(int kind, int id, int i, int j) { return hval(hsh(S + EP, kind + 50, id, i * 16 + j)); }
static void put(Cx *p, double re, double im) { *p = Cx(re, im); }
static void put(RealType *p, double re, double) { *p = re; }
template <class T> static bool block(T *v, int kind, int id, int ni, int nj) {
  if (!answers(kind, id)) return false;
  for (int j = 0; j < nj; j++) for (int i = 0; i < ni; i++) put(v + j * ni + i, vre(kind, id, i, j), vim(kind, id, i, j));
  return true;
}
// generalised interface: numbers of rows and columns of a component
static bool low(int kind, int tag) { return !LOWID || (kind == 0 && tag == LOWID); }
static int gR(int kind, int tag) { return low(kind, tag) ? (int)(hsh(S, 30 + kind, tag) % 4) : 0; }
static int gC(int kind, int tag) { return (int)(hsh(S, 40 + kind, tag) % 4); }
static int gV(int kind, int tag) { return (int)(hsh(S, 60 + kind, tag) % 4); }
static int gS(int kind, int tag) { return LOWID ? (low(kind, tag) ? 2 : 0) : (int)(hsh(S, 70 + kind, tag) % 4); }

struct Gen {
  int kind = 0, tag = -1;
  std::vector<int> ri, ci, vi, si;
  std::vector<Cx> back; std::vector<std::vector<Cx> > sback;
  void init(int k, int t) {
    kind = k; tag = t; ri.assign(gR(k, t), -1); ci.assign(gC(k, t), -1); vi.assign(gV(k, t), -1); si.assign(gS(k, t), -1);
  }
  static void set(std::vector<int> &v, int i, int x, const char *w) {
    if (i < 0 || i >= (int)v.size()) { BADCALL = w; return; }
    v[i] = x;
  }
  static int get(const std::vector<int> &v, int i, const char *w) {
    if (i < 0 || i >= (int)v.size()) { BADCALL = w; return -1; }
    return v[i];
  }
};

#define GENIF \
  Gen g; \
  int matrixNumRows() const { return (int)g.ri.size(); } \
  int matrixNumCols() const { return (int)g.ci.size(); } \
  void matrixSetRowIndex(int i, int x) { Gen::set(g.ri, i, x, "matrixSetRowIndex"); } \
  void matrixSetColIndex(int i, int x) { Gen::set(g.ci, i, x, "matrixSetColIndex"); } \
  int matrixGetRowIndex(int i) { return Gen::get(g.ri, i, "matrixGetRowIndex beyond the component's rows"); } \
  int matrixGetColIndex(int i) { return Gen::get(g.ci, i, "matrixGetColIndex beyond the component's columns"); } \
  int vectorNumElements() const { return (int)g.vi.size(); } \
  void vectorSetElementIndex(int i, int x) { Gen::set(g.vi, i, x, "vectorSetElementIndex"); } \
  void vectorGetElementIndices(int *x) { for (size_t i = 0; i < g.vi.size(); i++) x[i] = g.vi[i]; } \
  void vectorGetElementValues(Cx *v, int *x) { vectorGetElementIndices(x); for (size_t i = 0; i < g.vi.size(); i++) v[i] = Cx(vre(80 + g.kind, g.tag, i, 0), vim(80 + g.kind, g.tag, i, 0)); } \
  void vectorSetElementValues(Cx *v) { g.back.assign(v, v + g.vi.size()); } \
  void slabSize(int *r, int *c) const { *r = (int)g.si.size(); *c = NSL; } \
  void slabSetRowIndex(int i, int x) { Gen::set(g.si, i, x, "slabSetRowIndex"); } \
  void slabGetRowIndices(int *x) { for (size_t i = 0; i < g.si.size(); i++) x[i] = g.si[i]; } \
  void slabGetValues(std::vector<Cx*> &v, int *x) { slabGetRowIndices(x); for (size_t i = 0; i < g.si.size(); i++) for (int k = 0; k < NSL; k++) v[i][k] = Cx(vre(90 + g.kind, g.tag, i, k), vim(90 + g.kind, g.tag, i, k)); } \
  void slabSetValues(Cx **v) { g.sback.clear(); for (size_t i = 0; i < g.si.size(); i++) g.sback.push_back(std::vector<Cx>(v[i], v[i] + NSL)); } \
  void matrixGetValues(Cx *v, int *r, int *c) { int n = 0; fill(v, r, c, n, true); } \
  int matrixNumValues() const { int n = 0; const_cast<SELF*>(this)->fill(NULL, NULL, NULL, n, false); return n; }

// one entry per (own row, column of a component that shares a name with this one)
static void entries(Gen &me, Gen &o, Cx *v, int *r, int *c, int &n, bool store) {
  if (!answers(100 + me.kind, me.tag)) return;
  for (size_t i = 0; i < me.ri.size(); i++) for (size_t j = 0; j < o.ci.size(); j++) {
    if (hsh(S, 110 + me.kind * 2 + o.kind, hsh(me.tag, o.tag), i * 16 + j) % 4 == 0) continue;
    if (store) {
      r[n] = me.ri[i]; c[n] = o.ci[j];
      uint64_t h = hsh(S + EP, 120 + me.kind * 2 + o.kind, hsh(me.tag, o.tag), i * 16 + j);
      v[n] = Cx(hval(h), hval(hsh(h)));
    }
    n++;
  }
}

class MBranch;
class MBus : public component::BaseBusComponent {
public:
  typedef MBus SELF;
  std::vector<Cx> got; std::vector<double> gotr; int tag = -1;
  bool matrixDiagSize(int *i, int *j) const { if (!contrib(tag)) return false; *i = szI(tag); *j = szJ(tag); return true; }
  bool matrixDiagValues(Cx *v) { return contrib(tag) && block(v, 1, tag, szI(tag), szJ(tag)); }
  bool matrixDiagValues(RealType *v) { return contrib(tag) && block(v, 1, tag, szI(tag), szJ(tag)); }
  bool vectorSize(int *n) const { if (!contrib(tag)) return false; *n = szI(tag); return true; }
  bool vectorValues(Cx *v) { if (!contrib(tag)) return false; for (int i = 0; i < szI(tag); i++) put(v + i, vre(4, tag, i, 0), vim(4, tag, i, 0)); return true; }
  bool vectorValues(RealType *v) { if (!contrib(tag)) return false; for (int i = 0; i < szI(tag); i++) put(v + i, vre(4, tag, i, 0), 0.0); return true; }
  void setValues(Cx *v) { got.assign(v, v + szI(tag)); }
  void setValues(RealType *v) { gotr.assign(v, v + szI(tag)); }
  void fill(Cx *v, int *r, int *c, int &n, bool store);
  GENIF
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<component::BaseBusComponent>(*this) & tag; }
};
class MBranch : public component::BaseBranchComponent {
public:
  typedef MBranch SELF;
  int tag = -1;
  MBus *b1() const { return static_cast<MBus*>(const_cast<MBranch*>(this)->getBus1().get()); }
  MBus *b2() const { return static_cast<MBus*>(const_cast<MBranch*>(this)->getBus2().get()); }
  bool has(int which) const { return contrib(b1()->tag) && contrib(b2()->tag) && hsh(S, which, tag) % 6 != 0; }
  bool matrixForwardSize(int *i, int *j) const { if (!has(6)) return false; *i = szI(b1()->tag); *j = szJ(b2()->tag); return true; }
  bool matrixReverseSize(int *i, int *j) const { if (!has(7)) return false; *i = szI(b2()->tag); *j = szJ(b1()->tag); return true; }
  template <class T> bool fwd(T *v) { return has(6) && block(v, 2, tag, szI(b1()->tag), szJ(b2()->tag)); }
  template <class T> bool rev(T *v) { return has(7) && block(v, 3, tag, szI(b2()->tag), szJ(b1()->tag)); }
  bool matrixForwardValues(Cx *v) { return fwd(v); }
  bool matrixForwardValues(RealType *v) { return fwd(v); }
  bool matrixReverseValues(Cx *v) { return rev(v); }
  bool matrixReverseValues(RealType *v) { return rev(v); }
  void fill(Cx *v, int *r, int *c, int &n, bool store) {
    entries(g, g, v, r, c, n, store);
    entries(g, b1()->g, v, r, c, n, store);
    entries(g, b2()->g, v, r, c, n, store);
  }
  GENIF
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<component::BaseBranchComponent>(*this) & tag; }
};
void MBus::fill(Cx *v, int *r, int *c, int &n, bool store) {
  entries(g, g, v, r, c, n, store);
  std::vector<boost::shared_ptr<component::BaseComponent> > nb;
  getNeighborBranches(nb);
  for (auto &p : nb) entries(g, static_cast<MBranch*>(p.get())->g, v, r, c, n, store);
  nb.clear(); getNeighborBuses(nb);
  for (auto &p : nb) entries(g, static_cast<MBus*>(p.get())->g, v, r, c, n, store);
}
BOOST_CLASS_EXPORT(MBus)
BOOST_CLASS_EXPORT(MBranch)

typedef network::BaseNetwork<MBus, MBranch> MNet;
class MFactory : public factory::BaseFactory<MNet> {
public:
  explicit MFactory(boost::shared_ptr<MNet> n) : factory::BaseFactory<MNet>(n) {}
};

struct Ctx { vh::Out *out; std::string cs; int color; parallel::Communicator *comm; const vh::NetIn *in; int me, np; };

static std::string num(const Cx &z) { return vh::J::num(std::real(z)) + "," + vh::J::num(std::imag(z)); }
static std::string num(const double &z) { return vh::J::num(z) + ",0"; }
template <class M> static void dumpM(Ctx &c, const char *op, int step, M &m) {
  int lo, hi; m.localRowRange(lo, hi);
  vh::J j; j.k("t", "mat").k("case", c.cs).k("color", c.color).k("me", c.me).k("op", op).k("step", step).k("rows", m.rows()).k("cols", m.cols()).k("lo", lo).k("hi", hi);
  std::string s = "[";
  int n = m.cols(); bool first = true;
  for (int i = lo; i < hi; i++) for (int k = 0; k < n; k++) {
    typename M::TheType x; m.getElement(i, k, x);
    if (std::abs(x) != 0.0) { s += (first ? "[" : ",[") + std::to_string(i) + "," + std::to_string(k) + "," + num(x) + "]"; first = false; }
  }
  j.raw("nz", s + "]").k("badcall", BADCALL);
  c.out->rec(j);
}
template <class Vv> static void dumpV(Ctx &c, const char *op, int step, Vv &v) {
  int lo, hi; v.localIndexRange(lo, hi);
  vh::J j; j.k("t", "vec").k("case", c.cs).k("color", c.color).k("me", c.me).k("op", op).k("step", step).k("n", v.size()).k("lo", lo).k("hi", hi);
  std::string s = "[";
  for (int i = lo; i < hi; i++) { typename Vv::TheType x; v.getElement(i, x); s += (i > lo ? ",[" : "[") + num(x) + "]"; }
  j.raw("v", s + "]").k("badcall", BADCALL);
  c.out->rec(j);
}

static void recIdx(Ctx &c, MNet &net, const char *what) {
  vh::J j; std::string b = "[", l = "[";
  for (int i = 0; i < net.numBuses(); i++) {
    MBus *x = net.getBus(i).get(); int mv; x->getMatVecIndex(&mv);
    Gen &g = x->g;
    b += std::string(i ? "," : "") + "[" + std::to_string(x->tag) + "," + (net.getActiveBus(i) ? "1," : "0,") + std::to_string(mv) + "," + vh::J::v(g.ri) + "," + vh::J::v(g.ci) + "," + vh::J::v(g.vi) + "," + vh::J::v(g.si) + "]";
  }
  for (int i = 0; i < net.numBranches(); i++) {
    MBranch *x = net.getBranch(i).get(); Gen &g = x->g; int m1, m2; x->getMatVecIndices(&m1, &m2);
    l += std::string(i ? "," : "") + "[" + std::to_string(x->tag) + "," + (net.getActiveBranch(i) ? "1," : "0,") + std::to_string(m1) + "," + vh::J::v(g.ri) + "," + vh::J::v(g.ci) + "," + vh::J::v(g.vi) + "," + vh::J::v(g.si) + "]";
  }
  j.k("t", "idx").k("case", c.cs).k("color", c.color).k("me", c.me).k("what", what).raw("b", b + "]").raw("l", l + "]");
  c.out->rec(j);
}

static void doFull(Ctx &c, boost::shared_ptr<MNet> net, const std::string &plan) {
  boost::shared_ptr<mapper::FullMatrixMap<MNet> > map(new mapper::FullMatrixMap<MNet>(net));
  boost::shared_ptr<math::Matrix> m; boost::shared_ptr<math::RealMatrix> r;
  recIdx(c, *net, "full");
  for (size_t s = 0; s < plan.size(); s++) {
    char op[2] = { plan[s], 0 }; EP = (int)s; PART = 0;
    switch (plan[s]) {
    case 'n': m = map->mapToMatrix(); break;
    case 'd': m = map->mapToMatrix(true); break;
    case 'f': m.reset(map->intMapToMatrix()); break;
    case 'r': r = map->mapToRealMatrix(); break;
    case 'R': r = map->mapToRealMatrix(true); break;
    case 'z': PART = 1; map->mapToMatrix(m); break;
    case 'Z': PART = 1; map->mapToMatrix(*m); break;
    case 'y': PART = 1; map->mapToRealMatrix(r); break;
    case 'o': PART = 1; map->overwriteMatrix(m); break;
    case 'i': PART = 1; map->incrementMatrix(m); break;
    case 'N': map.reset(new mapper::FullMatrixMap<MNet>(net)); continue;
    case 'k': { bool ok = map->check(); vh::J j; j.k("t", "chk").k("case", c.cs).k("color", c.color).k("me", c.me).k("ok", ok); c.out->rec(j); continue; }
    }
    if (plan[s] == 'r' || plan[s] == 'R' || plan[s] == 'y') dumpM(c, op, (int)s, *r); else dumpM(c, op, (int)s, *m);
  }
}

static void doBvec(Ctx &c, boost::shared_ptr<MNet> net, const std::string &plan) {
  boost::shared_ptr<mapper::BusVectorMap<MNet> > map(new mapper::BusVectorMap<MNet>(net));
  boost::shared_ptr<math::Vector> v; boost::shared_ptr<math::RealVector> r;
  recIdx(c, *net, "bvec");
  for (size_t s = 0; s < plan.size(); s++) {
    char op[2] = { plan[s], 0 }; EP = (int)s;
    switch (plan[s]) {
    case 'n': v = map->mapToVector(); break;
    case 'f': v.reset(map->intMapToVector()); break;
    case 'r': r = map->mapToRealVector(); break;
    case 'z': map->mapToVector(v); break;
    case 'y': map->mapToRealVector(r); break;
    case 'N': map.reset(new mapper::BusVectorMap<MNet>(net)); continue;
    case 's': v->scale(Cx(2.0, 1.0)); break;
    case 't': r->scale(-3.0); break;
    case 'b': case 'c': {
      for (int i = 0; i < net->numBuses(); i++) { net->getBus(i)->got.clear(); net->getBus(i)->gotr.clear(); }
      if (plan[s] == 'b') map->mapToBus(v); else map->mapToBus(r);
      vh::J j; std::string q = "[";
      for (int i = 0; i < net->numBuses(); i++) {
        MBus *b = net->getBus(i).get(); int off = -7, sz = -7; map->getLocalOffset(i, &off, &sz);
        q += std::string(i ? "," : "") + "[" + std::to_string(b->tag) + "," + std::to_string(off) + "," + std::to_string(sz);
        if (plan[s] == 'b') { for (auto &x : b->got) q += ",[" + num(x) + "]"; } else { for (auto &x : b->gotr) q += ",[" + num(x) + "]"; }
        q += "]";
      }
      j.k("t", "back").k("case", c.cs).k("color", c.color).k("me", c.me).k("op", op).k("step", (int)s).raw("got", q + "]");
      c.out->rec(j);
      continue; }
    }
    if (plan[s] == 'r' || plan[s] == 'y' || plan[s] == 't') dumpV(c, op, (int)s, *r); else dumpV(c, op, (int)s, *v);
  }
}

static void doGmat(Ctx &c, boost::shared_ptr<MNet> net, const std::string &plan) {
  EP = 0; PART = 0;
  boost::shared_ptr<mapper::GenMatrixMap<MNet> > map(new mapper::GenMatrixMap<MNet>(net));
  boost::shared_ptr<math::Matrix> m;
  recIdx(c, *net, "gmat");
  for (size_t s = 0; s < plan.size(); s++) {
    char op[2] = { plan[s], 0 }; EP = (int)s; PART = 0;
    switch (plan[s]) {
    case 'n': m = map->mapToMatrix(); break;
    case 'f': m.reset(map->intMapToMatrix()); break;
    case 'z': PART = 1; map->mapToMatrix(m); break;
    case 'o': PART = 1; map->overwriteMatrix(m); break;
    case 'i': PART = 1; map->incrementMatrix(m); break;
    }
    dumpM(c, op, (int)s, *m);
  }
}
static void recBack(Ctx &c, MNet &net, const char *op, int step, bool slab) {
  vh::J j; std::string q = "["; bool first = true;
  auto one = [&](Gen &g, bool act) {
    q += std::string(first ? "" : ",") + "[" + std::to_string(g.kind) + "," + std::to_string(g.tag) + "," + (act ? "1,[" : "0,["); first = false;
    bool f2 = true;
    if (!slab) for (auto &x : g.back) { q += std::string(f2 ? "[" : ",[") + num(x) + "]"; f2 = false; }
    else for (auto &r : g.sback) for (auto &x : r) { q += std::string(f2 ? "[" : ",[") + num(x) + "]"; f2 = false; }
    q += "]]"; g.back.clear(); g.sback.clear();
  };
  for (int i = 0; i < net.numBuses(); i++) one(net.getBus(i)->g, net.getActiveBus(i));
  for (int i = 0; i < net.numBranches(); i++) one(net.getBranch(i)->g, net.getActiveBranch(i));
  j.k("t", "back").k("case", c.cs).k("color", c.color).k("me", c.me).k("op", op).k("step", step).raw("got", q + "]");
  c.out->rec(j);
}
static void doGvec(Ctx &c, boost::shared_ptr<MNet> net, const std::string &plan) {
  EP = 0; PART = 0;
  mapper::GenVectorMap<MNet> map(net);
  boost::shared_ptr<math::Vector> v;
  recIdx(c, *net, "gvec");
  for (size_t s = 0; s < plan.size(); s++) {
    char op[2] = { plan[s], 0 }; EP = (int)s;
    switch (plan[s]) {
    case 'n': v = map.mapToVector(); break;
    case 'f': v.reset(map.intMapToVector()); break;
    case 'z': map.mapToVector(v); break;
    case 's': v->scale(Cx(2.0, 1.0)); break;
    case 'b': map.mapToNetwork(v); recBack(c, *net, op, (int)s, false); continue;
    }
    dumpV(c, op, (int)s, *v);
  }
}
static void doSlab(Ctx &c, boost::shared_ptr<MNet> net, const std::string &plan) {
  EP = 0; PART = 0;
  mapper::GenSlabMap<MNet> map(net);
  boost::shared_ptr<math::Matrix> m;
  recIdx(c, *net, "slab");
  for (size_t s = 0; s < plan.size(); s++) {
    char op[2] = { plan[s], 0 }; EP = (int)s;
    switch (plan[s]) {
    case 'n': m = map.mapToMatrix(); break;
    case 'f': m.reset(map.intMapToMatrix()); break;
    case 'z': map.mapToMatrix(m); break;
    case 's': m->scale(Cx(2.0, 1.0)); break;
    case 'b': map.mapToNetwork(m); recBack(c, *net, op, (int)s, true); continue;
    }
    dumpM(c, op, (int)s, *m);
  }
}

int main(int argc, char **argv) {
  Environment env(argc, argv);
  if (argc < 4) vh::harnessFail("usage");
  std::string mode = argv[1];
  gridpack::NoPrint::instance()->setStatus(true);
  vh::quietStdout();
  math::Initialize(&argc, &argv);
  {
    std::vector<vh::CaseIn> cases = vh::readCases(argv[2]);
    vh::Out out(argv[3]);
    parallel::Communicator world;
    for (size_t i = 0; i < cases.size(); i++) {
      const vh::CaseIn &cs = cases[i];
      out.begin(cs.id);
      int K = (int)cs.nets.size();
      int color = cs.ip("style", 0) == 0 ? out.rank % K : out.rank * K / out.size;
      parallel::Communicator comm = world;
      if (K > 1) comm = world.split(color);
      else color = 0;
      Ctx c; c.out = &out; c.cs = cs.id; c.color = color; c.comm = &comm; c.in = &cs.nets[color];
      c.me = comm.rank(); c.np = comm.size();
      S = c.in->seed; SQ = c.in->ip("sq", 0); FIX = c.in->ip("fix", 0); NSL = c.in->ip("nsl", 1); LOWID = c.in->ip("lowid", 0);
      EP = 0; PART = 0; BADCALL = "";
      std::string plan = c.in->par.at("plan");
      try {
        boost::shared_ptr<MNet> net(new MNet(comm));
        int ib = 0, il = 0;
        for (auto &b : c.in->buses) if (b.rank == c.me) { net->addBus(b.orig); net->setGlobalBusIndex(ib, b.gid); net->getBus(ib)->tag = b.orig; ib++; }
        for (auto &b : c.in->branches) if (b.rank == c.me) { net->addBranch(b.o1, b.o2); net->setGlobalBranchIndex(il, b.gid); net->getBranch(il)->tag = b.gid; il++; }
        net->partition();
        MFactory fac(net);
        fac.setComponents();
        for (int k = 0; k < net->numBuses(); k++) net->getBus(k)->g.init(0, net->getBus(k)->tag);
        for (int k = 0; k < net->numBranches(); k++) net->getBranch(k)->g.init(1, net->getBranch(k)->tag);
        if (mode == "full") doFull(c, net, plan);
        else if (mode == "bvec") doBvec(c, net, plan);
        else if (mode == "gmat") doGmat(c, net, plan);
        else if (mode == "gvec") doGvec(c, net, plan);
        else if (mode == "slab") doSlab(c, net, plan);
        else vh::harnessFail("mode");
      } catch (const std::exception &e) { out.viol(cs.id, "exception", e.what()); fflush(out.f); _exit(70); }
      world.barrier();
    }
    out.done();
  }
  math::Finalize();
  return 0;
}
