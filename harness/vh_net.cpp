// Network driver: partitioning, ghost exchange, indexing, lookup, factory wiring, clone,
// clean + repartition, serial IO.    vh_net MODE CASES OUT
#include "vh_netlib.hpp"
#include "gridpack/parser/bus_table.hpp"
#include "gridpack/serial_io/serial_io.hpp"
#include "gridpack/parser/hash_distr.hpp"
#include <boost/serialization/export.hpp>

using namespace gridpack;

static int g_busXC = 8, g_branchXC = 8;

class TBus : public component::BaseBusComponent {
public:
  int tag; std::vector<int> pay;
  TBus() : tag(-1) { p_XCBufSize = g_busXC; own = NULL; }
  ~TBus() { delete [] own; }
  void load(const boost::shared_ptr<component::DataCollection> &d) { loaded = -7; d->getValue("PAY_I", &loaded); }
  int getXCBufSize() { return g_busXC; }
  void setXCBuf(void *b) { xc = (char*)b; }
  void getXCBuf(void **b) { if (!own) own = new char[g_busXC]; xc = own; *b = own; }
  bool serialWrite(char *string, const int bufsize, const char *signal = NULL);
  bool getDataItem(void *data, const char *signal = NULL);
  int loaded = -9; char *xc = NULL; char *own; int wmode = 0; uint64_t wseed = 0;
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) {
    ar & boost::serialization::base_object<component::BaseBusComponent>(*this) & tag & pay;
  }
};
class TBranch : public component::BaseBranchComponent {
public:
  int tag; std::vector<int> pay;
  TBranch() : tag(-1) { p_XCBufSize = g_branchXC; own = NULL; }
  ~TBranch() { delete [] own; }
  void load(const boost::shared_ptr<component::DataCollection> &d) { loaded = -7; d->getValue("PAY_I", &loaded); }
  int getXCBufSize() { return g_branchXC; }
  void setXCBuf(void *b) { xc = (char*)b; }
  void getXCBuf(void **b) { if (!own) own = new char[g_branchXC]; xc = own; *b = own; }
  bool serialWrite(char *string, const int bufsize, const char *signal = NULL);
  bool getDataItem(void *data, const char *signal = NULL);
  int loaded = -9; char *xc = NULL; char *own; int wmode = 0; uint64_t wseed = 0; int gidx = -1;
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) {
    ar & boost::serialization::base_object<component::BaseBranchComponent>(*this) & tag & pay;
  }
};
BOOST_CLASS_EXPORT(TBus)
BOOST_CLASS_EXPORT(TBranch)

// the text a component writes: fully determined by (seed, kind, tag, signal)
static bool wtext(uint64_t seed, int kind, int tag, const char *sig, char *s, int bufsize) {
  uint64_t h = vh::hsh(seed, kind, tag, sig ? (uint64_t)strlen(sig) : 99);
  if (h % 4 == 0) return false;                       // this component has nothing to say
  int fill = (int)(h % 23);
  std::string t = (kind == 0 ? "B" : "L") + std::to_string(tag) + ":" + (sig ? sig : "-") + ":" + std::string(fill, 'x') + "\n";
  if ((int)t.size() >= bufsize) t = t.substr(0, bufsize - 2) + "\n";
  strcpy(s, t.c_str());
  return true;
}
bool TBus::serialWrite(char *s, const int n, const char *sig) { return wtext(wseed, 0, tag, sig, s, n); }
bool TBranch::serialWrite(char *s, const int n, const char *sig) { return wtext(wseed, 1, tag, sig, s, n); }

struct Item { int tag; int kind; double v; };
static bool witem(uint64_t seed, int kind, int tag, const char *sig, void *p) {
  uint64_t h = vh::hsh(seed, 10 + kind, tag, sig ? (uint64_t)strlen(sig) : 99);
  if (h % 3 == 0) return false;
  Item it; it.tag = tag; it.kind = kind; it.v = vh::hval(h);
  memcpy(p, &it, sizeof it);
  return true;
}
bool TBus::getDataItem(void *d, const char *sig) { return witem(wseed, 0, tag, sig, d); }
bool TBranch::getDataItem(void *d, const char *sig) { return witem(wseed, 1, tag, sig, d); }

typedef network::BaseNetwork<TBus, TBranch> TNet;
class TFactory : public factory::BaseFactory<TNet> {
public:
  explicit TFactory(boost::shared_ptr<TNet> n) : factory::BaseFactory<TNet>(n) {}
};

// ---- a second component class, the target of clone()
class CBus : public component::BaseBusComponent {
public:
  CBus() {}
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<component::BaseBusComponent>(*this); }
};
class CBranch : public component::BaseBranchComponent {
public:
  CBranch() {}
private:
  friend class boost::serialization::access;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::base_object<component::BaseBranchComponent>(*this); }
};
BOOST_CLASS_EXPORT(CBus)
BOOST_CLASS_EXPORT(CBranch)
typedef network::BaseNetwork<CBus, CBranch> CNet;

static void fillData(boost::shared_ptr<component::DataCollection> d, uint64_t seed, int kind, int tag) {
  uint64_t h = vh::hsh(seed, 1000 + kind, tag);
  d->addValue("PAY_I", tag);
  d->addValue("PAY_D", vh::hval(h));
  d->addValue("PAY_S", ("s" + std::to_string(h % 100000)).c_str());
  int n = (int)(h % 4);
  d->addValue("PAY_N", n);
  for (int i = 0; i < n; i++) { d->addValue("PAY_V", (int)((h >> 8) % 1000) + i, i); d->addValue("PAY_W", vh::hval(h + i), i); }
}
/// true if the collection holds exactly what fillData stored
static bool checkData(boost::shared_ptr<component::DataCollection> d, uint64_t seed, int kind, int tag) {
  uint64_t h = vh::hsh(seed, 1000 + kind, tag);
  int i, n; double x; std::string s;
  if (!d->getValue("PAY_I", &i) || i != tag) return false;
  if (!d->getValue("PAY_D", &x) || x != vh::hval(h)) return false;
  if (!d->getValue("PAY_S", &s) || s != "s" + std::to_string(h % 100000)) return false;
  if (!d->getValue("PAY_N", &n) || n != (int)(h % 4)) return false;
  for (int k = 0; k < n; k++) {
    if (!d->getValue("PAY_V", &i, k) || i != (int)((h >> 8) % 1000) + k) return false;
    if (!d->getValue("PAY_W", &x, k) || x != vh::hval(h + k)) return false;
  }
  if (d->getValue("PAY_V", &i, n)) return false;
  return true;
}
static std::vector<int> payOf(uint64_t seed, int kind, int tag) {
  uint64_t h = vh::hsh(seed, 2000 + kind, tag);
  std::vector<int> p((size_t)(h % 7));
  for (size_t i = 0; i < p.size(); i++) p[i] = (int)(vh::mix(h + i) % 1000000);
  return p;
}

static void build(TNet &net, const vh::NetIn &in, int me) {
  int ib = 0, il = 0;
  for (size_t i = 0; i < in.buses.size(); i++) {
    const vh::BusIn &b = in.buses[i];
    if (b.rank != me) continue;
    net.addBus(b.orig);
    net.setGlobalBusIndex(ib, b.gid);
    net.getBus(ib)->tag = b.orig;
    net.getBus(ib)->pay = payOf(in.seed, 0, b.orig);
    fillData(net.getBusData(ib), in.seed, 0, b.orig);
    ib++;
  }
  for (size_t i = 0; i < in.branches.size(); i++) {
    const vh::BranchIn &b = in.branches[i];
    if (b.rank != me) continue;
    net.addBranch(b.o1, b.o2);
    net.setGlobalBranchIndex(il, b.gid);
    net.getBranch(il)->tag = b.gid;
    net.getBranch(il)->pay = payOf(in.seed, 1, b.gid);
    fillData(net.getBranchData(il), in.seed, 1, b.gid);
    il++;
  }
}

template <class N> static std::string dumpBuses(N &net) {
  std::string r = "[";
  for (int i = 0; i < net.numBuses(); i++) {
    if (i) r += ",";
    std::vector<int> nb = net.getConnectedBranches(i), cb = net.getConnectedBuses(i);
    r += "[" + std::to_string(net.getOriginalBusIndex(i)) + "," + std::to_string(net.getGlobalBusIndex(i)) + "," +
         (net.getActiveBus(i) ? "1" : "0") + "," + vh::J::v(nb) + "," + vh::J::v(cb) + "]";
  }
  return r + "]";
}
template <class N> static std::string dumpBranches(N &net) {
  std::string r = "[";
  for (int i = 0; i < net.numBranches(); i++) {
    if (i) r += ",";
    int o1, o2, l1, l2;
    net.getOriginalBranchEndpoints(i, &o1, &o2);
    net.getBranchEndpoints(i, &l1, &l2);
    r += "[" + std::to_string(net.getGlobalBranchIndex(i)) + "," + (net.getActiveBranch(i) ? "1" : "0") + "," +
         std::to_string(o1) + "," + std::to_string(o2) + "," + std::to_string(l1) + "," + std::to_string(l2) + "]";
  }
  return r + "]";
}
static int badPayload(TNet &net, uint64_t seed, std::string &what) {
  int bad = 0;
  for (int i = 0; i < net.numBuses(); i++) {
    int tag = net.getOriginalBusIndex(i);
    if (net.getBus(i)->tag != tag || net.getBus(i)->pay != payOf(seed, 0, tag)) { bad++; what = "bus component " + std::to_string(tag); }
    if (!checkData(net.getBusData(i), seed, 0, tag)) { bad++; what = "bus data " + std::to_string(tag); }
  }
  for (int i = 0; i < net.numBranches(); i++) {
    int tag = net.getGlobalBranchIndex(i);
    if (net.getBranch(i)->tag != tag || net.getBranch(i)->pay != payOf(seed, 1, tag)) { bad++; what = "branch component " + std::to_string(tag); }
    if (!checkData(net.getBranchData(i), seed, 1, tag)) { bad++; what = "branch data " + std::to_string(tag); }
  }
  return bad;
}
static void recNet(vh::Out &out, const std::string &cs, const char *stage, int color, int me, TNet &net, uint64_t seed, bool pay = true) {
  vh::J j; std::string what;
  int bad = pay ? badPayload(net, seed, what) : 0;
  j.k("t", "net").k("case", cs).k("stage", stage).k("color", color).k("me", me)
   .k("tb", net.totalBuses()).k("tl", net.totalBranches()).k("bad", bad).k("what", what)
   .raw("buses", dumpBuses(net)).raw("branches", dumpBranches(net));
  out.rec(j);
}

struct Ctx { vh::Out *out; std::string cs; int color; parallel::Communicator *comm; const vh::NetIn *in; int me, np; };

// ------------------------------------------------------------ topo: N01
static void doTopo(Ctx &c) {
  int reps = c.in->ip("repart", 0);
  boost::shared_ptr<TNet> net(new TNet(*c.comm));
  build(*net, *c.in, c.me);
  net->partition();
  recNet(*c.out, c.cs, "part", c.color, c.me, *net, c.in->seed);
  for (int r = 0; r < reps; r++) {
    net->clean();
    recNet(*c.out, c.cs, "clean", c.color, c.me, *net, c.in->seed);
    net->partition();
    recNet(*c.out, c.cs, "part", c.color, c.me, *net, c.in->seed);
  }
  if (c.in->ip("clear", 0)) {
    net->clear();
    build(*net, *c.in, c.me);
    net->partition();
    recNet(*c.out, c.cs, "part", c.color, c.me, *net, c.in->seed);
  }
}

// ------------------------------------------------------------ index: N03
static void doIndex(Ctx &c) {
  boost::shared_ptr<TNet> net(new TNet(*c.comm));
  build(*net, *c.in, c.me);
  net->partition();
  int flag = c.in->ip("reset", 0);       // 0 none, 1 reset all, 2 reset ghosts only
  if (flag == 2) {                       // forget what the ghosts know, then ask for it again
    for (int i = 0; i < net->numBuses(); i++) if (!net->getActiveBus(i)) net->setGlobalBusIndex(i, -5);
    for (int i = 0; i < net->numBranches(); i++) if (!net->getActiveBranch(i)) net->setGlobalBranchIndex(i, -5);
    net->resetGlobalIndices(false);
  } else if (flag == 1) net->resetGlobalIndices(true);
  int ref = c.in->ip("ref", -1);         // original index of the reference bus
  for (int i = 0; i < net->numBuses(); i++) if (net->getOriginalBusIndex(i) == ref && net->getActiveBus(i)) net->setReferenceBus(i);
  recNet(*c.out, c.cs, "index", c.color, c.me, *net, c.in->seed, flag != 1);
  TFactory fac(net);
  fac.load();
  fac.setComponents();
  // wiring: what the components themselves say
  vh::J j;
  std::string bs = "[", ls = "[";
  int wrong = 0; std::string what;
  std::map<component::BaseComponent*, int> bpos, lpos;
  for (int i = 0; i < net->numBuses(); i++) bpos[net->getBus(i).get()] = i;
  for (int i = 0; i < net->numBranches(); i++) lpos[net->getBranch(i).get()] = i;
  for (int i = 0; i < net->numBuses(); i++) {
    TBus *b = net->getBus(i).get();
    int mv; b->getMatVecIndex(&mv);
    std::vector<boost::shared_ptr<component::BaseComponent> > v;
    std::vector<int> nb, nl;
    b->getNeighborBuses(v);
    for (auto &p : v) nb.push_back(bpos.count(p.get()) ? bpos[p.get()] : -1);
    v.clear(); b->getNeighborBranches(v);
    for (auto &p : v) nl.push_back(lpos.count(p.get()) ? lpos[p.get()] : -1);
    if (i) bs += ",";
    bs += "[" + std::to_string(b->getOriginalIndex()) + "," + std::to_string(b->getGlobalIndex()) + "," + std::to_string(mv) + "," +
          (b->getReferenceBus() ? "1" : "0") + "," + vh::J::v(nb) + "," + vh::J::v(nl) + "," + std::to_string(b->loaded) + "]";
  }
  for (int i = 0; i < net->numBranches(); i++) {
    TBranch *b = net->getBranch(i).get();
    int m1, m2; b->getMatVecIndices(&m1, &m2);
    component::BaseComponent *p1 = b->getBus1().get(), *p2 = b->getBus2().get();
    if (i) ls += ",";
    ls += "[" + std::to_string(b->getGlobalIndex()) + "," + std::to_string(b->getBus1OriginalIndex()) + "," + std::to_string(b->getBus2OriginalIndex()) + "," +
          std::to_string(b->getBus1GlobalIndex()) + "," + std::to_string(b->getBus2GlobalIndex()) + "," + std::to_string(m1) + "," + std::to_string(m2) + "," +
          std::to_string(bpos.count(p1) ? bpos[p1] : -1) + "," + std::to_string(bpos.count(p2) ? bpos[p2] : -1) + "," + std::to_string(b->loaded) + "]";
  }
  // look-ups for every bus and every branch of the input network, in both orders, and for absent ones
  std::string lb = "[", ll = "[";
  for (size_t i = 0; i < c.in->buses.size(); i++) {
    if (i) lb += ",";
    lb += vh::J::v(net->getLocalBusIndices(c.in->buses[i].orig));
  }
  for (size_t i = 0; i < c.in->branches.size(); i++) {
    if (i) ll += ",";
    ll += "[" + vh::J::v(net->getLocalBranchIndices(c.in->branches[i].o1, c.in->branches[i].o2)) + "," +
          vh::J::v(net->getLocalBranchIndices(c.in->branches[i].o2, c.in->branches[i].o1)) + "]";
  }
  std::vector<int> absent = net->getLocalBusIndices(-12345), absentL = net->getLocalBranchIndices(-12345, -12346);
  j.k("t", "wire").k("case", c.cs).k("color", c.color).k("me", c.me).k("ref", net->getReferenceBus())
   .raw("buses", bs + "]").raw("branches", ls + "]").raw("lookb", lb + "]").raw("lookl", ll + "]")
   .k("absent", (int)(absent.size() + absentL.size()));
  c.out->rec(j);
  if (c.in->ip("clone", 0)) {
    boost::shared_ptr<CNet> cn(new CNet(*c.comm));
    for (int i = 0; i < c.in->ip("predirty", 0); i++) { cn->addBus(90000 + i); }
    net->clone<CBus, CBranch>(cn);
    int bad = 0;
    if (flag != 1) {
      for (int i = 0; i < cn->numBuses(); i++) if (!checkData(cn->getBusData(i), c.in->seed, 0, cn->getOriginalBusIndex(i))) bad++;
      for (int i = 0; i < cn->numBranches(); i++) if (!checkData(cn->getBranchData(i), c.in->seed, 1, cn->getGlobalBranchIndex(i))) bad++;
    }
    // the copy must not share its data with the original
    int shared = 0;
    if (cn->numBuses() > 0) {
      int v = 0; cn->getBusData(0)->setValue("PAY_I", -777);
      if (net->getBusData(0)->getValue("PAY_I", &v) && v == -777) shared++;
    }
    vh::J k;
    k.k("t", "clone").k("case", c.cs).k("color", c.color).k("me", c.me).k("bad", bad).k("shared", shared).k("ref", cn->getReferenceBus())
     .k("tb", cn->totalBuses()).k("tl", cn->totalBranches())
     .raw("buses", dumpBuses(*cn)).raw("branches", dumpBranches(*cn));
    c.out->rec(k);
  }
}

// ------------------------------------------------------------ xchg: N02
static void fillXC(TNet &net, uint64_t seed, int epoch, int nb, int nl, bool ghosts, int me) {
  for (int i = 0; i < net.numBuses(); i++) {
    bool act = net.getActiveBus(i);
    if (!act && !ghosts) continue;
    for (int k = 0; k < nb; k++) net.getBus(i)->xc[k] = act ? (char)vh::hsh(seed + epoch, 1, net.getOriginalBusIndex(i), k) : (char)(0x5A + me);
  }
  for (int i = 0; i < net.numBranches(); i++) {
    bool act = net.getActiveBranch(i);
    if (!act && !ghosts) continue;
    for (int k = 0; k < nl; k++) net.getBranch(i)->xc[k] = act ? (char)vh::hsh(seed + epoch, 2, net.getBranch(i)->tag, k) : (char)(0x3C + me);
  }
}
// compare every local buffer with what its owner wrote in epoch eb (buses) / el (branches)
static void checkXC(Ctx &c, TNet &net, int eb, int el, int nb, int nl, const char *stage) {
  int gb = 0, gl = 0, badb = 0, badl = 0, stale = 0; int firstb = -1, firstl = -1;
  for (int i = 0; i < net.numBuses(); i++) {
    bool act = net.getActiveBus(i), bad = false;
    if (!act) gb++;
    for (int k = 0; k < nb; k++) if (net.getBus(i)->xc[k] != (char)vh::hsh(c.in->seed + eb, 1, net.getOriginalBusIndex(i), k)) bad = true;
    if (bad) { badb++; if (firstb < 0) firstb = net.getOriginalBusIndex(i); if (act) stale++; }
  }
  for (int i = 0; i < net.numBranches(); i++) {
    bool act = net.getActiveBranch(i), bad = false;
    if (!act) gl++;
    for (int k = 0; k < nl; k++) if (net.getBranch(i)->xc[k] != (char)vh::hsh(c.in->seed + el, 2, net.getBranch(i)->tag, k)) bad = true;
    if (bad) { badl++; if (firstl < 0) firstl = net.getBranch(i)->tag; if (act) stale++; }
  }
  vh::J j;
  j.k("t", "xc").k("case", c.cs).k("color", c.color).k("me", c.me).k("stage", stage).k("gb", gb).k("gl", gl)
   .k("nb", net.numBuses()).k("nl", net.numBranches())
   .k("badb", badb).k("badl", badl).k("owned_changed", stale).k("firstb", firstb).k("firstl", firstl);
  c.out->rec(j);
}
static void doXchg(Ctx &c) {
  g_busXC = c.in->ip("xcb", 8); g_branchXC = c.in->ip("xcl", 8);
  boost::shared_ptr<TNet> net(new TNet(*c.comm));
  build(*net, *c.in, c.me);
  net->partition();
  { TFactory fac(net);
    fac.setComponents();
    bool alloc = c.in->ip("alloc", 1);
    fac.setExchange(alloc); }
  uint64_t seed = c.in->seed; int nb = g_busXC, nl = g_branchXC;
  std::string script = c.in->par.count("script") ? c.in->par.at("script") : "IBL";
  int epoch = 0, eb = -1, el = -1, busInit = 0, brInit = 0;
  fillXC(*net, seed, epoch, nb, nl, true, c.me);
  for (size_t s = 0; s < script.size(); s++) {
    char op = script[s];
    if (op == 'I') { net->initBusUpdate(); busInit = 1; }
    else if (op == 'J') { net->initBranchUpdate(); brInit = 1; }
    else if (op == 'W') { epoch++; fillXC(*net, seed, epoch, nb, nl, c.in->ip("scribble", 1), c.me); eb = el = -1; }
    else if (op == 'B') { net->updateBuses(); eb = epoch; }
    else if (op == 'L') { net->updateBranches(); el = epoch; }
    else if (op == 'R') {                // free all exchange buffers and start over, possibly with another size
      net->freeXCBus(); net->freeXCBranch();
      g_busXC = 1 + (int)(vh::hsh(seed, 77, s) % 37); g_branchXC = 1 + (int)(vh::hsh(seed, 78, s) % 37);
      nb = g_busXC; nl = g_branchXC;
      for (int i = 0; i < net->numBuses(); i++) { delete [] net->getBus(i)->own; net->getBus(i)->own = NULL; }
      for (int i = 0; i < net->numBranches(); i++) { delete [] net->getBranch(i)->own; net->getBranch(i)->own = NULL; }
      TFactory f2(net); f2.setExchange(c.in->ip("alloc", 1) != 0);
      net->initBusUpdate(); net->initBranchUpdate();
      epoch++; fillXC(*net, seed, epoch, nb, nl, true, c.me); eb = el = -1;
    }
    if (op == 'B' || op == 'L') {
      // only the kind just updated is promised to be current
      int sb = op == 'B' ? nb : 0, sl = op == 'L' ? nl : 0;
      std::string st = script.substr(0, s + 1);
      checkXC(c, *net, epoch, epoch, sb, sl, st.c_str());
    }
  }
}

// ------------------------------------------------------------ sio: S01
static std::string slurp(const std::string &f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
static void doSio(Ctx &c, const std::string &prefix) {
  boost::shared_ptr<TNet> net(new TNet(*c.comm));
  build(*net, *c.in, c.me);
  net->partition();
  for (int i = 0; i < net->numBuses(); i++) net->getBus(i)->wseed = c.in->seed;
  for (int i = 0; i < net->numBranches(); i++) net->getBranch(i)->wseed = c.in->seed;
  int len = c.in->ip("len", 64);
  std::string fb = prefix + ".sio." + std::to_string(c.color);
  static const char *sigs[] = { NULL, "a", "bb", "flow" };
  std::string got = "[";
  auto strs = [&](const std::vector<std::string> &v) {
    if (got.size() > 1) got += ",";
    got += "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) got += ","; got += vh::J::str(v[i]); }
    got += "]";
  };
  auto items = [&](const std::vector<Item> &v) {
    if (got.size() > 1) got += ",";
    got += "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) got += ","; got += "[" + std::to_string(v[i].tag) + "," + std::to_string(v[i].kind) + "," + vh::J::num(v[i].v) + "]"; }
    got += "]";
  };
  {
    serial_io::SerialBusIO<TNet> bio(len, net);
    serial_io::SerialBranchIO<TNet> lio(len, net);
    std::string plan = c.in->par.count("plan") ? c.in->par.at("plan") : "b0l0";
    // plan: pairs (b|l|h) digit: b = bus write with signal, l = branch write, h = header via buses
    bio.open(fb.c_str());
    boost::shared_ptr<std::ofstream> st = bio.getStream();
    lio.setStream(st);
    for (size_t i = 0; i + 1 < plan.size(); i += 2) {
      int d = plan[i + 1] - '0';
      if (plan[i] == 'b') bio.write(sigs[d & 3]);
      else if (plan[i] == 'l') lio.write(sigs[d & 3]);
      else if (plan[i] == 'h') { std::string h = "# header " + std::to_string(d) + "\n"; bio.header(h.c_str()); }
      else if (plan[i] == 'k') { std::string h = "# bheader " + std::to_string(d) + "\n"; lio.header(h.c_str()); }
      else if (plan[i] == 's') strs(bio.writeStrings(sigs[d & 3]));
      else if (plan[i] == 't') strs(lio.writeStrings(sigs[d & 3]));
      else if (plan[i] == 'g') { std::vector<Item> v(3); bio.gatherData(v, sigs[d & 3]); items(v); }
      else if (plan[i] == 'm') { std::vector<Item> v; lio.gatherData(v, sigs[d & 3]); items(v); }
      else if (plan[i] == 'o') {           // close, then start a second file
        bio.close(); c.comm->barrier();
        bio.open((fb + ".2").c_str()); lio.setStream(bio.getStream());
      }
    }
    bio.close();
    c.comm->barrier();
  }
  vh::J j;
  j.k("t", "sio").k("case", c.cs).k("color", c.color).k("me", c.me).k("nb", net->numBuses()).k("nl", net->numBranches());
  j.raw("got", got + "]");
  if (c.me == 0) {
    j.k("text", slurp(fb)); unlink(fb.c_str());
    j.k("text2", slurp(fb + ".2")); unlink((fb + ".2").c_str());
  }
  c.out->rec(j);
}

// ------------------------------------------------------------ hdist: P02
struct HB { int a; double v; char c; };
struct HL { double v; int a; };
static void doHdist(Ctx &c) {
  boost::shared_ptr<TNet> net(new TNet(*c.comm));
  build(*net, *c.in, c.me);
  if (c.in->ip("part", 1)) net->partition();
  int maxn = c.in->ip("maxn", 20), sparse = c.in->ip("sparse", 0), nv = c.in->ip("nvals", 3), unknown = c.in->ip("unknown", 0);
  hash_distr::HashDistribution<TNet, HB, HL> hd(net);
  hash_distr::HashDistribution<TNet, double, int> hs(net);
  std::string plan = c.in->par.count("plan") ? c.in->par.at("plan") : "bl";
  std::vector<int> lb; std::vector<std::pair<int, int> > ll;
  for (int i = 0; i < net->numBuses(); i++) lb.push_back(net->getOriginalBusIndex(i));
  for (int i = 0; i < net->numBranches(); i++) { int a, b; net->getOriginalBranchEndpoints(i, &a, &b); ll.push_back(std::make_pair(a, b)); }
  for (size_t s = 0; s < plan.size(); s++) {
    vh::Rng g(vh::hsh(c.in->seed, c.me, 80 + s));
    vh::J j;
    j.k("t", "hd").k("case", c.cs).k("color", c.color).k("me", c.me).k("op", std::string(1, plan[s])).raw("lb", vh::J::v(lb)).raw("ll", vh::J::v(ll));
    int n = sparse && g.below(3) == 0 ? 0 : g.below(maxn + 1);
    char op = plan[s] == 'n' || plan[s] == 'N' ? (n = 0, plan[s] == 'n' ? 'b' : 'l') : plan[s];
    std::vector<int> kb; std::vector<std::pair<int, int> > kl; std::vector<int> ids;
    for (int i = 0; i < n; i++) {
      int id = c.me * 100000 + (int)s * 1000 + i;
      ids.push_back(id);
      if (op == 'b' || op == 'B') kb.push_back(g.below(100) < unknown ? 1000000 + g.below(9) : c.in->buses[g.below((int)c.in->buses.size())].orig);
      else {
        const vh::BranchIn &b = c.in->branches[g.below((int)c.in->branches.size())];
        if (g.below(100) < unknown) kl.push_back(std::make_pair(1000000, b.o2)); else kl.push_back(std::make_pair(b.o1, b.o2));
      }
    }
    j.raw("ids", vh::J::v(ids)).raw("kb", vh::J::v(kb)).raw("kl", vh::J::v(kl));
    std::vector<int> got, where; int bad = 0;
    uint64_t S = c.in->seed;
    if (op == 'b') {
      std::vector<HB> v;
      for (int id : ids) { HB h; memset(&h, 0, sizeof h); h.a = id; h.v = vh::hval(vh::hsh(S, id)); h.c = (char)(id % 101); v.push_back(h); }
      hd.distributeBusValues(kb, v);
      where = kb; for (HB &h : v) { got.push_back(h.a); if (h.v != vh::hval(vh::hsh(S, h.a)) || h.c != (char)(h.a % 101)) bad++; }
    } else if (op == 'l') {
      std::vector<HL> v;
      for (int id : ids) { HL h; memset(&h, 0, sizeof h); h.a = id; h.v = vh::hval(vh::hsh(S, id)); v.push_back(h); }
      std::vector<int> loc;
      hd.distributeBranchValues(kl, loc, v);
      where = loc; for (HL &h : v) { got.push_back(h.a); if (h.v != vh::hval(vh::hsh(S, h.a))) bad++; }
    } else if (op == 'B') {
      std::vector<double*> v;
      for (int id : ids) { double *d = new double[nv]; for (int k = 0; k < nv; k++) d[k] = k == 0 ? id : vh::hval(vh::hsh(S, id, k)); v.push_back(d); }
      hs.distributeBusValues(kb, v, nv);
      where = kb;
      for (double *d : v) { got.push_back((int)d[0]); for (int k = 1; k < nv; k++) if (d[k] != vh::hval(vh::hsh(S, (int)d[0], k))) bad++; delete [] d; }
    } else {
      std::vector<int*> v;
      for (int id : ids) { int *d = new int[nv]; for (int k = 0; k < nv; k++) d[k] = k == 0 ? id : (int)vh::hsh(S, id, k); v.push_back(d); }
      std::vector<int> loc;
      hs.distributeBranchValues(kl, loc, v, nv);
      where = loc;
      for (int *d : v) { got.push_back(d[0]); for (int k = 1; k < nv; k++) if (d[k] != (int)vh::hsh(S, d[0], k)) bad++; delete [] d; }
    }
    j.raw("where", vh::J::v(where)).raw("got", vh::J::v(got)).k("bad", bad);
    c.out->rec(j);
  }
}

// ------------------------------------------------------------ btab: B02
static void doBtab(Ctx &c) {
  boost::shared_ptr<TNet> net(new TNet(*c.comm));
  build(*net, *c.in, c.me);
  if (c.in->ip("part", 1)) net->partition();
  gridpack::bus_table::BusTable<TNet> table(net);
  int reads = c.in->ip("reads", 1);
  std::string base = c.in->par.at("table");
  for (int s = 0; s < reads; s++) {
    std::string f = base + "." + std::to_string(s);
    vh::J j;
    bool ok = table.readTable(f);
    j.k("t", "bt").k("case", c.cs).k("color", c.color).k("me", c.me).k("r", ok);
    if (ok) {
      std::vector<int> lb, idx; std::vector<std::string> tags, hd; std::vector<std::vector<double> > vals;
      for (int i = 0; i < net->numBuses(); i++) lb.push_back(net->getOriginalBusIndex(i));
      table.getLocalIndices(idx); table.getTags(tags); table.getHeaders(hd);
      int nc = table.getNumColumns();
      for (int k = 0; k < nc; k++) { std::vector<double> v; table.getValues(k, v); vals.push_back(v); }
      j.raw("lb", vh::J::v(lb)).k("idx", idx).k("tags", tags).k("hd", hd).k("nc", nc).k("vals", vals);
    }
    c.out->rec(j);
  }
}

int main(int argc, char **argv) {
  Environment env(argc, argv);
  if (argc < 4) vh::harnessFail("usage");
  std::string mode = argv[1];
  gridpack::NoPrint::instance()->setStatus(true);
  vh::quietStdout();
  {
    std::vector<vh::CaseIn> cases = vh::readCases(argv[2]);
    vh::Out out(argv[3]);
    parallel::Communicator world;
    for (size_t i = 0; i < cases.size(); i++) {
      const vh::CaseIn &cs = cases[i];
      out.begin(cs.id);
      int K = (int)cs.nets.size();
      int color = cs.ip("style", 0) == 0 ? out.rank % K : out.rank * K / out.size;
      parallel::Communicator comm = world;
      if (K > 1) comm = world.split(color);
      else color = 0;
      Ctx c; c.out = &out; c.cs = cs.id; c.color = color; c.comm = &comm; c.in = &cs.nets[color];
      c.me = comm.rank(); c.np = comm.size();
      try {
        if (mode == "topo") doTopo(c);
        else if (mode == "index") doIndex(c);
        else if (mode == "xchg") doXchg(c);
        else if (mode == "sio") doSio(c, argv[3]);
        else if (mode == "hdist") doHdist(c);
        else if (mode == "btab") doBtab(c);
        else vh::harnessFail("mode");
      } catch (const std::exception &e) { out.viol(cs.id, "exception", e.what()); fflush(out.f); _exit(70); }
      world.barrier();
    }
    out.done();
  }
  return 0;
}
