// Driver for the parallel services: index hash map, hash distribution, shufflers, task manager,
// global stores, communicators.    vh_par MODE CASES OUT
#include "vh_netlib.hpp"
// the header's clearing of freshly allocated blocks is a point where other ranks may overtake
inline void *vh_memset(void *p, int c, size_t n) { vh_pause(); return memset(p, c, n); }
#define memset vh_memset
#include "gridpack/parallel/global_vector.hpp"
#undef memset
#include "gridpack/parallel/global_store.hpp"
#include "gridpack/parallel/shuffler.hpp"
#include "gridpack/parallel/ga_shuffler.hpp"
#include "gridpack/parallel/task_manager.hpp"
#include "gridpack/parallel/index_hash.hpp"
#include "gridpack/parallel/random.hpp"
#include <boost/serialization/string.hpp>
#include <set>

using namespace gridpack;
struct Ctx { vh::Out *out; std::string cs; int color; parallel::Communicator *comm; const vh::NetIn *in; int me, np;
  vh::J rec(const char *t) const { vh::J j; j.k("t", t).k("case", cs).k("color", color).k("me", me); return j; } };

static int keyOf(vh::Rng &g, int kind) {
  switch (kind) {
    case 0: return g.below(12);
    case 1: return g.below(200);
    case 2: return g.below(400) - 200;
    case 3: return (int)(g.next() % 4294967296ULL);          // any 32-bit value
    default: return 1 + g.below(1000000);
  }
}
// how many things this rank contributes; some ranks contribute nothing
static int amount(vh::Rng &g, int maxn, int sparse) { if (sparse && g.below(3) == 0) return 0; return g.below(maxn + 1); }

// ------------------------------------------------------------ P01
static void doHash(Ctx &c) {
  vh::Rng g(vh::hsh(c.in->seed, c.me, 1));
  int kind = c.in->ip("kind"), maxn = c.in->ip("maxn", 20), sparse = c.in->ip("sparse"), rounds = c.in->ip("rounds", 3), none = c.in->ip("none");
  hash_map::GlobalIndexHashMap map(*c.comm);
  std::string plan = c.in->par.count("plan") ? c.in->par.at("plan") : "AaQq";
  for (size_t r = 0; r < plan.size(); r++) {
    vh::J j = c.rec("hash");
    std::string op(1, plan[r]);
    j.k("op", op);
    bool empty = plan[r] == 'E' || plan[r] == 'e' || plan[r] == 'N' || plan[r] == 'n';
    int n = empty ? 0 : amount(g, maxn, sparse);
    if (plan[r] == 'A' || plan[r] == 'E') {
      std::vector<std::pair<int, int> > p;
      for (int i = 0; i < n; i++) { int k = keyOf(g, kind); p.push_back(std::make_pair(k, (int)(g.next() % 2000000) - 1000000)); }
      j.raw("in", vh::J::v(p));
      map.addPairs(p);
    } else if (plan[r] == 'a' || plan[r] == 'e') {
      std::vector<std::pair<std::pair<int, int>, int> > p;
      for (int i = 0; i < n; i++) { int k = keyOf(g, kind), l = keyOf(g, kind); p.push_back(std::make_pair(std::make_pair(k, l), (int)(g.next() % 2000000) - 1000000)); }
      j.raw("in", vh::J::v(p));
      map.addPairs(p);
    } else if (plan[r] == 'Q' || plan[r] == 'N') {
      std::vector<int> q, v; std::set<int> seen;
      for (int i = 0; i < n; i++) { int k = keyOf(g, kind); if (kind == 0 || seen.insert(k).second) q.push_back(k); }
      j.raw("in", vh::J::v(q));
      if (g.below(2)) v.resize(3, -1);
      map.getValues(q, v);
      j.raw("ok", vh::J::v(q)).raw("ov", vh::J::v(v));
    } else {
      std::vector<std::pair<int, int> > q; std::vector<int> v; std::set<std::pair<int, int> > seen;
      for (int i = 0; i < n; i++) { std::pair<int, int> k(keyOf(g, kind), keyOf(g, kind)); if (kind == 0 || seen.insert(k).second) q.push_back(k); }
      j.raw("in", vh::J::v(q));
      map.getValues(q, v);
      j.raw("ok", vh::J::v(q)).raw("ov", vh::J::v(v));
    }
    c.out->rec(j);
  }
}

// ------------------------------------------------------------ P03
struct Thing {
  int id; std::string s; std::vector<double> v;
  template <class A> void serialize(A &ar, const unsigned int) { ar & id & s & v; }
};
static Thing mkThing(uint64_t seed, int id) {
  uint64_t h = vh::hsh(seed, 31, id);
  Thing t; t.id = id; t.s = "t" + std::to_string(h % 1000003) + std::string(h % 40, 'q');
  for (int i = 0; i < (int)(h % 6); i++) t.v.push_back(vh::hval(h + i));
  return t;
}
static void doShuffle(Ctx &c) {
  vh::Rng g(vh::hsh(c.in->seed, c.me, 2));
  int maxn = c.in->ip("maxn", 20), sparse = c.in->ip("sparse"), rounds = c.in->ip("rounds", 2), pattern = c.in->ip("pattern"), gas = c.in->ip("ga");
  std::vector<Thing> things;
  int n = amount(g, maxn, sparse);
  if (c.in->ip("onlyone", -1) >= 0 && c.in->ip("onlyone") != c.me) n = 0;
  for (int i = 0; i < n; i++) things.push_back(mkThing(c.in->seed, c.me * 100000 + i));
  parallel::Shuffler<Thing> sh(*c.comm);
  parallel::gaShuffler<Thing> gsh(*c.comm);
  for (int r = 0; r < rounds; r++) {
    std::vector<int> dest, ids;
    for (size_t i = 0; i < things.size(); i++) {
      int d;
      if (pattern == 0) d = g.below(c.np);
      else if (pattern == 1) d = 0;
      else if (pattern == 2) d = (c.me + 1) % c.np;
      else if (pattern == 3) d = c.me;
      else d = g.below(4) == 0 ? g.below(c.np) : c.np - 1;
      dest.push_back(d); ids.push_back(things[i].id);
    }
    vh::J j = c.rec("shuf");
    j.k("r", r).raw("ids", vh::J::v(ids)).raw("dest", vh::J::v(dest));
    if (gas) gsh(things, dest); else sh(things, dest);
    std::vector<int> got; int bad = 0;
    for (size_t i = 0; i < things.size(); i++) {
      got.push_back(things[i].id);
      Thing w = mkThing(c.in->seed, things[i].id);
      if (w.s != things[i].s || w.v != things[i].v) bad++;
    }
    j.raw("got", vh::J::v(got)).k("bad", bad);
    c.out->rec(j);
  }
}

// ------------------------------------------------------------ P04
static void busy(vh::Rng &g, int us) { if (us > 0) usleep(g.below(us)); }
static void doTasks(Ctx &c) {
  vh::Rng g(vh::hsh(c.in->seed, c.me, 3)), shared(vh::hsh(c.in->seed, 99, 3));
  int rounds = c.in->ip("rounds", 2), us = c.in->ip("us", 200), sub = c.in->ip("sub", 0), cancel = c.in->ip("cancel", 0);
  parallel::TaskManager tm(*c.comm);
  parallel::Communicator grp = *c.comm;
  if (sub == 1) grp = c.comm->divide(c.in->ip("gsize", 2));
  else if (sub == 2) grp = c.comm->split(c.me % c.in->ip("gsize", 2));
  int gleader = c.me; grp.min(&gleader, 1);
  for (int r = 0; r < rounds; r++) {
    int nt = shared.below(5) == 0 ? shared.below(3) : shared.below(c.in->ip("ntasks", 60));
    int who = shared.below(c.np), after = 1 + shared.below(5);
    tm.set(nt);
    std::vector<int> got; int task, cancelled = -1;
    while (sub ? tm.nextTask(grp, &task) : tm.nextTask(&task)) {
      got.push_back(task);
      busy(g, us);
      // cancel is called by a process (by the leader of a group when groups share tasks)
      if (cancel && cancelled < 0 && (sub ? gleader : c.me) == who && (int)got.size() >= after && (sub ? c.me == gleader : true)) { tm.cancel(); cancelled = (int)got.size(); }
    }
    vh::J j = c.rec("task");
    j.k("r", r).k("nt", nt).k("end", task).k("leader", gleader).k("cancelled", cancelled).raw("got", vh::J::v(got));
    c.out->rec(j);
    c.comm->sync();
  }
}

// ------------------------------------------------------------ P05
struct Odd { char c; double d; short s; };
template <class T> struct Mk;
template <> struct Mk<double> { static double of(uint64_t h) { return vh::hval(h); } static bool eq(double a, double b) { return a == b; } };
template <> struct Mk<int> { static int of(uint64_t h) { return (int)(h & 0x7fffffff); } static bool eq(int a, int b) { return a == b; } };
template <> struct Mk<char> { static char of(uint64_t h) { return (char)(h % 100 + 1); } static bool eq(char a, char b) { return a == b; } };
template <> struct Mk<ComplexType> { static ComplexType of(uint64_t h) { return ComplexType(vh::hval(h), vh::hval(vh::mix(h))); } static bool eq(const ComplexType &a, const ComplexType &b) { return a == b; } };
template <> struct Mk<Odd> {
  static Odd of(uint64_t h) { Odd o; memset(&o, 0, sizeof o); o.c = (char)(h % 100); o.d = vh::hval(h); o.s = (short)(h >> 20); return o; }
  static bool eq(const Odd &a, const Odd &b) { return a.c == b.c && a.d == b.d && a.s == b.s; }
};
template <class T> static void storeT(Ctx &c) {
  uint64_t S = c.in->seed;
  int n = c.in->ip("n", 20), maxlen = c.in->ip("maxlen", 30), hole = c.in->ip("hole", 0), pattern = c.in->ip("pattern", 0), skip0 = c.in->ip("zero", 0);
  // owner of vector i, its length and whether it exists at all: known to every rank
  auto owner = [&](int i) { return pattern == 0 ? (int)(vh::hsh(S, 41, i) % c.np) : pattern == 1 ? 0 : pattern == 2 ? i % c.np : c.np - 1; };
  auto exists = [&](int i) { return i == n - 1 || !hole || vh::hsh(S, 42, i) % 4 != 0; };
  auto len = [&](int i) { return skip0 && vh::hsh(S, 44, i) % 4 == 0 ? 0 : 1 + (int)(vh::hsh(S, 43, i) % maxlen); };
  parallel::GlobalStore<T> gs(*c.comm);
  std::vector<int> order;
  for (int i = 0; i < n; i++) if (owner(i) == c.me && exists(i)) order.push_back(i);
  vh::Rng g(vh::hsh(S, c.me, 4));
  for (int i = (int)order.size() - 1; i > 0; i--) std::swap(order[i], order[g.below(i + 1)]);
  for (int i : order) { std::vector<T> v; for (int k = 0; k < len(i); k++) v.push_back(Mk<T>::of(vh::hsh(S, i, k))); gs.addVector(i, v); }
  gs.upload();
  int bad = 0, seen = 0; std::string what;
  std::vector<int> q;
  for (int i = 0; i < n; i++) q.push_back(i);
  for (int i = n - 1; i > 0; i--) std::swap(q[i], q[g.below(i + 1)]);
  for (int rep = 0; rep < 2; rep++) for (int i : q) {
    std::vector<T> v((size_t)g.below(3));
    gs.getVector(i, v);
    size_t want = exists(i) ? (size_t)len(i) : 0;
    bool ok = v.size() == want;
    for (size_t k = 0; ok && k < want; k++) ok = Mk<T>::eq(v[k], Mk<T>::of(vh::hsh(S, i, k)));
    seen++;
    if (!ok) { bad++; if (what.empty()) what = "vector " + std::to_string(i) + " (length " + std::to_string(want) + ", got " + std::to_string(v.size()) + ")"; }
  }
  vh::J j = c.rec("store");
  j.k("bad", bad).k("seen", seen).k("what", what);
  c.out->rec(j);
  c.comm->sync();
}
template <class T> static void gvecT(Ctx &c) {
  uint64_t S = c.in->seed;
  int n = c.in->ip("n", 200), hole = c.in->ip("hole", 0), pattern = c.in->ip("pattern", 0), rounds = c.in->ip("rounds", 2);
  parallel::GlobalVector<T> gv(*c.comm);
  std::vector<T> now((size_t)n);
  memset((void*)&now[0], 0, n * sizeof(T));
  for (int r = 0; r <= rounds; r++) {
    // set, in round r, the elements chosen for r, each by one rank
    std::vector<int> idx; std::vector<T> val;
    for (int i = 0; i < n; i++) {
      bool set = r == 0 ? (i == n - 1 || !hole || vh::hsh(S, 52, i) % 4 != 0) : vh::hsh(S, 53 + r, i) % 3 == 0;
      if (!set) continue;
      T x = Mk<T>::of(vh::hsh(S, 60 + r, i));
      now[i] = x;
      int ow = pattern == 0 ? (int)(vh::hsh(S, 51 + 7 * r, i) % c.np) : pattern == 1 ? 0 : pattern == 2 ? i % c.np : (c.np - 1 - i * c.np / n);
      if (ow == c.me) { idx.push_back(i); val.push_back(x); }
    }
    if (r == 0) {
      size_t h = idx.size() / 2;           // in two parts
      gv.addElements(std::vector<int>(idx.begin(), idx.begin() + h), std::vector<T>(val.begin(), val.begin() + h));
      gv.addElements(std::vector<int>(idx.begin() + h, idx.end()), std::vector<T>(val.begin() + h, val.end()));
      gv.upload();
    } else { gv.resetElements(idx, val); gv.reload(); }
    vh::Rng g(vh::hsh(S, c.me, 5 + r));
    int bad = 0, seen = 0, first = -1;
    for (int rep = 0; rep < 3; rep++) {
      std::vector<int> q; for (int i = 0; i < g.below(40); i++) q.push_back(g.below(n));
      std::vector<T> v; 
      if (q.size()) gv.getData(q, v);
      if (v.size() != q.size()) bad++;
      else for (size_t k = 0; k < q.size(); k++) { seen++; if (!Mk<T>::eq(v[k], now[q[k]])) { bad++; if (first < 0) first = q[k]; } }
    }
    std::vector<T> all; gv.getAllData(all);
    if ((int)all.size() != n) bad++;
    else for (int i = 0; i < n; i++) { seen++; if (!Mk<T>::eq(all[i], now[i])) { bad++; if (first < 0) first = i; } }
    vh::J j = c.rec("gvec");
    j.k("r", r).k("bad", bad).k("seen", seen).k("what", "element " + std::to_string(first));
    c.out->rec(j);
    c.comm->sync();
  }
}
static void doStore(Ctx &c) {
  switch (c.in->ip("type")) {
    case 0: storeT<double>(c); break;
    case 1: storeT<int>(c); break;
    case 2: storeT<ComplexType>(c); break;
    case 3: storeT<Odd>(c); break;
    default: storeT<char>(c);
  }
}
static void doGvec(Ctx &c) {
  switch (c.in->ip("type")) {
    case 0: gvecT<double>(c); break;
    case 1: gvecT<int>(c); break;
    case 2: gvecT<ComplexType>(c); break;
    default: gvecT<Odd>(c);
  }
}

// ------------------------------------------------------------ P06
template <class T> static T pick(uint64_t h) { return (T)((int)(h % 2001) - 1000); }
// values that need the whole width of the type, yet whose sums over a few ranks are exact
template <> int pick<int>(uint64_t h) { return (int)(h % 400000001ULL) - 200000000; }
template <> long pick<long>(uint64_t h) { return (long)(h >> 8) - (1L << 55); }
template <> float pick<float>(uint64_t h) { return (float)((int)(h % 2000001) - 1000000); }
template <> double pick<double>(uint64_t h) { return (double)((long)(h >> 16) - (1L << 47)) / 8.0; }
template <> ComplexType pick<ComplexType>(uint64_t h) { return ComplexType((double)(int)(h % 2001) - 1000, (double)(int)((h >> 20) % 2001) - 1000); }
template <class T> static void reduceT(Ctx &c, const parallel::Communicator &cm, const std::vector<int> &world, uint64_t S, int tid, bool order, int &bad, std::string &what);
template <class T> static void sumT(const parallel::Communicator &cm, const std::vector<int> &w, uint64_t S, int n, int wme, int &bad, std::string &what, const char *nm) {
  std::vector<T> x(n), want(n);
  for (int k = 0; k < n; k++) { x[k] = pick<T>(vh::hsh(S, wme, k)); want[k] = T(0); for (int r : w) want[k] += pick<T>(vh::hsh(S, r, k)); }
  cm.sum(&x[0], n);
  for (int k = 0; k < n; k++) if (x[k] != want[k]) { bad++; what = std::string("sum ") + nm; }
}
template <class T> static void mmT(const parallel::Communicator &cm, const std::vector<int> &w, uint64_t S, int n, int wme, int &bad, std::string &what, const char *nm) {
  std::vector<T> x(n), y(n), hi(n), lo(n);
  for (int k = 0; k < n; k++) {
    x[k] = y[k] = pick<T>(vh::hsh(S, wme, k)); hi[k] = lo[k] = pick<T>(vh::hsh(S, w[0], k));
    for (int r : w) { hi[k] = std::max(hi[k], pick<T>(vh::hsh(S, r, k))); lo[k] = std::min(lo[k], pick<T>(vh::hsh(S, r, k))); }
  }
  cm.max(&x[0], n); cm.min(&y[0], n);
  for (int k = 0; k < n; k++) { if (x[k] != hi[k]) { bad++; what = std::string("max ") + nm; } if (y[k] != lo[k]) { bad++; what = std::string("min ") + nm; } }
}
static void commCheck(Ctx &c, const parallel::Communicator &cm, uint64_t S, const char *stage, int lev) {
  // members by world rank, gathered with plain MPI on the communicator itself
  int wme; MPI_Comm_rank(MPI_COMM_WORLD, &wme);
  MPI_Comm mc = static_cast<MPI_Comm>(cm);
  int n = 0, r = 0; MPI_Comm_size(mc, &n); MPI_Comm_rank(mc, &r);
  std::vector<int> w(n); MPI_Allgather(&wme, 1, MPI_INT, &w[0], 1, MPI_INT, mc);
  int bad = 0; std::string what;
  if (cm.size() != n || cm.rank() != r || cm.worldRank() != wme) { bad++; what = "rank/size"; }
  int grp = cm.getGroup();
  if (GA_Pgroup_nnodes(grp) != n || GA_Pgroup_nodeid(grp) != r) { bad++; what = "array group rank/size"; }
  cm.sync();
  int nv = 1 + (int)(S % 7);
  sumT<int>(cm, w, S + 1, nv, wme, bad, what, "int"); sumT<long>(cm, w, S + 2, nv, wme, bad, what, "long");
  sumT<float>(cm, w, S + 3, nv, wme, bad, what, "float"); sumT<double>(cm, w, S + 4, nv, wme, bad, what, "double");
  sumT<ComplexType>(cm, w, S + 5, nv, wme, bad, what, "complex");
  mmT<int>(cm, w, S + 6, nv, wme, bad, what, "int"); mmT<long>(cm, w, S + 7, nv, wme, bad, what, "long");
  mmT<float>(cm, w, S + 8, nv, wme, bad, what, "float"); mmT<double>(cm, w, S + 9, nv, wme, bad, what, "double");
  for (int q = 0; q < 3; q++) {
    int mod = q == 0 ? 2 : q == 1 ? 1 + n : 1000003;
    auto fl = [&](int x) { return (vh::hsh(S, 70 + q, x) % mod) == 0; };
    bool a = false, l = true; for (int x : w) { a = a || fl(x); l = l && fl(x); }
    if (cm.any(fl(wme)) != a) { bad++; what = "any"; }
    if (cm.all(fl(wme)) != l) { bad++; what = "all"; }
    if (cm.any(!fl(wme)) == l) { bad++; what = "any of negations"; }
  }
  vh::J j = c.rec("comm");
  j.k("stage", stage).k("lev", lev).k("bad", bad).k("what", what).raw("members", vh::J::v(w)).k("wme", wme);
  c.out->rec(j);
}
static void doComm(Ctx &c) {
  uint64_t S = c.in->seed; vh::Rng g(vh::hsh(S, 1234));
  std::vector<parallel::Communicator> st;
  st.push_back(*c.comm);
  commCheck(c, st.back(), S, "base", 0);
  std::string plan = c.in->par.count("plan") ? c.in->par.at("plan") : "d2";
  // all members of the base communicator walk through the same plan
  for (size_t i = 0; i + 1 < plan.size(); i += 2) {
    int d = plan[i + 1] - '0';
    std::string st2 = plan.substr(i, 2);
    parallel::Communicator cur = st.back();
    if (plan[i] == 'd') { st.push_back(cur.divide(d)); }
    else if (plan[i] == 's') { st.push_back(cur.split(cur.rank() % d)); }
    else if (plan[i] == 'r') { st.push_back(cur.split(d * 100 - cur.rank() / d)); }
    else if (plan[i] == 'm') { st.push_back(parallel::Communicator(static_cast<MPI_Comm>(cur))); }
    else if (plan[i] == 'p') { st.push_back(cur.self()); }
    else if (plan[i] == 'u' && st.size() > 1) { st.pop_back(); }
    else if (plan[i] == 'a') { parallel::Communicator x; x = cur; parallel::Communicator y(x); x = *c.comm; st.push_back(y); }
    commCheck(c, st.back(), vh::hsh(S, i), st2.c_str(), (int)st.size());
  }
}

int main(int argc, char **argv) {
  Environment env(argc, argv);
  if (argc < 4) vh::harnessFail("usage");
  std::string mode = argv[1];
  gridpack::NoPrint::instance()->setStatus(true);
  vh::quietStdout();
  if (mode == "shuffle" && !getenv("VH_VERBOSE")) std::cerr.setstate(std::ios::failbit);
  {
    std::vector<vh::CaseIn> cases = vh::readCases(argv[2]);
    vh::Out out(argv[3]);
    parallel::Communicator world;
    for (size_t i = 0; i < cases.size(); i++) {
      const vh::CaseIn &cs = cases[i];
      out.begin(cs.id);
      int K = (int)cs.nets.size();
      int color = cs.ip("style", 0) == 0 ? out.rank % K : out.rank * K / out.size;
      parallel::Communicator comm = world;
      if (K > 1) comm = world.split(color);
      else color = 0;
      Ctx c; c.out = &out; c.cs = cs.id; c.color = color; c.comm = &comm; c.in = &cs.nets[color];
      c.me = comm.rank(); c.np = comm.size();
      try {
        if (mode == "hash") doHash(c);
        else if (mode == "shuffle") doShuffle(c);
        else if (mode == "tasks") doTasks(c);
        else if (mode == "store") doStore(c);
        else if (mode == "gvec") doGvec(c);
        else if (mode == "comm") doComm(c);
        else vh::harnessFail("mode");
      } catch (const std::exception &e) { out.viol(cs.id, "exception", e.what()); fflush(out.f); _exit(70); }
      world.barrier();
    }
    out.done();
  }
  return 0;
}
