// Data collections, configuration files, string utilities and statistics blocks.
// vh_util CASEFILE OUTPREFIX; every line is blank-separated tokens with %XX escapes:
//   case ID KIND ...        starts a case (KIND dc|cfg|str|stat); the following lines are its operations
#include "vh.hpp"
#include <boost/smart_ptr/shared_ptr.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <ga.h>
#include "gridpack/environment/environment.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/configuration/configuration.hpp"
#include "gridpack/utilities/string_utils.hpp"
#include "gridpack/analysis/stat_block.hpp"
using namespace vh;
typedef gridpack::component::DataCollection DC;
typedef gridpack::utility::Configuration Cfg;
typedef std::vector<std::string> Toks;

static std::string unesc(const std::string &t) {
  std::string r;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == '%' && i + 2 < t.size()) { r += (char)strtol(t.substr(i + 1, 2).c_str(), NULL, 16); i += 2; }
    else r += t[i];
  }
  return r;
}
static Toks split(const std::string &l) { Toks v; std::istringstream in(l); std::string t; while (in >> t) v.push_back(t == "%" ? std::string() : unesc(t)); return v; }

// ---------------------------------------------------------------- data collection
template <class T> static J got(bool ok, const T &v) { J j; j.k("r", ok); if (ok) j.k("v", v); return j; }
template <class T> static bool get(DC &d, const std::string &n, const std::string &ix, T *v) { return ix == "-" ? d.getValue(n.c_str(), v) : d.getValue(n.c_str(), v, atoi(ix.c_str())); }
template <class T> static void add(DC &d, const std::string &n, const std::string &ix, T v) { if (ix == "-") d.addValue(n.c_str(), v); else d.addValue(n.c_str(), v, atoi(ix.c_str())); }
template <class T> static bool set(DC &d, const std::string &n, const std::string &ix, T v) { return ix == "-" ? d.setValue(n.c_str(), v) : d.setValue(n.c_str(), v, atoi(ix.c_str())); }
template <class T> static J getop(DC &d, const Toks &t, T sentinel) {
  T v = sentinel;
  bool r = get(d, t[2], t[3], &v);
  J j; j.k("r", r).k("v", v); if (!r) j.k("kept", (bool)(v == sentinel));
  return j;
}
static void runDC(const std::string &id, const std::vector<Toks> &ops, Out &out) {
  boost::shared_ptr<DC> d(new DC), other(new DC);
  for (size_t i = 0; i < ops.size(); i++) {
    const Toks &t = ops[i];
    J j;
    char o = t[0][0], ty = t.size() > 1 ? t[1][0] : 0;
    if (o == 'g') {
      switch (ty) {
        case 'i': j = getop<int>(*d, t, -77); break;
        case 'l': j = getop<long>(*d, t, -78L); break;
        case 'b': { bool v = true; bool r = get(*d, t[2], t[3], &v); j.k("r", r).k("v", v); if (!r) { bool w = false; get(*d, t[2], t[3], &w); j.k("kept", v && !w); } break; }
        case 's': j = getop<std::string>(*d, t, "untouched"); break;
        case 'f': j = getop<float>(*d, t, -7.5f); break;
        case 'd': j = getop<double>(*d, t, -7.25); break;
        case 'c': j = getop<gridpack::ComplexType>(*d, t, gridpack::ComplexType(-7.25, 3)); break;
      }
    } else if (o == 'a' || o == 's') {
      bool r = true, a = o == 'a';
      const std::string &n = t[2], &x = t[3], &w = t[4];
#define DO(val) { if (a) add(*d, n, x, val); else r = set(*d, n, x, val); }
      switch (ty) {
        case 'i': DO((int)strtol(w.c_str(), NULL, 10)) break;
        case 'l': DO((long)strtol(w.c_str(), NULL, 10)) break;
        case 'b': DO((bool)(w == "1")) break;
        case 's': DO(w.c_str()) break;
        case 'f': DO((float)strtof(w.c_str(), NULL)) break;
        case 'd': DO(strtod(w.c_str(), NULL)) break;
        case 'c': DO(gridpack::ComplexType(strtod(w.c_str(), NULL), strtod(t[5].c_str(), NULL))) break;
      }
      j.k("r", r);
    } else if (o == 'c') { // assign to the other one, which held anything
      *other = *d; j.k("r", true);
    } else if (o == 'x') { other.swap(d); j.k("r", true); }
    else if (o == 'z') {
      std::stringstream ss;
      { boost::archive::binary_oarchive oa(ss); const DC &cd = *d; oa << cd; }
      boost::shared_ptr<DC> n(new DC);
      if (t[1] == "1") n->addValue("STALE", 3);
      { boost::archive::binary_iarchive ia(ss); ia >> *n; }
      d = n; j.k("r", true);
    }
    j.k("t", "dc").k("case", id).k("n", (int)i);
    out.rec(j);
  }
}

// ---------------------------------------------------------------- configuration
static J cfgGet(Cfg *c, const Toks &t) { // g TYPE KEY DEFAULT
  J j;
  const std::string &k = t[2], &df = t[3];
  switch (t[1][0]) {
    case 'i': { int v = -99; j.k("d", c->get(k, (int)atoi(df.c_str()))); j.k("r", c->get(k, &v)).k("v", v); break; }
    case 'd': { double v = -99.5; j.k("d", c->get(k, atof(df.c_str()))); j.k("r", c->get(k, &v)).k("v", v); break; }
    case 'b': { bool v = true, w = false; j.k("d", c->get(k, df == "1")); bool r = c->get(k, &v); c->get(k, &w); j.k("r", r).k("v", v).k("w", w); break; }
    case 's': { std::string v = "unset"; j.k("d", c->get(k, df)); j.k("d2", c->get(k, df.c_str())); j.k("r", c->get(k, &v)).k("v", v); break; }
    case 'v': { std::vector<double> v, dv(2, atof(df.c_str())); j.k("d", c->get(k, dv)); j.k("r", c->get(k, &v)).k("v", v); break; }
  }
  return j;
}
static void runCfg(const std::string &id, const std::vector<Toks> &ops, Out &out, gridpack::parallel::Communicator &world) {
  Cfg cfg;
  boost::shared_ptr<Cfg> cur;
  std::vector<boost::shared_ptr<Cfg> > stack;
  gridpack::parallel::Communicator comm = world;
  for (size_t i = 0; i < ops.size(); i++) {
    const Toks &t = ops[i];
    J j;
    Cfg *c = cur ? cur.get() : &cfg;
    if (t[0] == "split") { int color = out.rank % atoi(t[1].c_str()); comm = world.split(color); j.k("r", true); }
    else if (t[0] == "open") {
      std::string f = t[1];
      j.k("r", cfg.open(f, comm));
    } else if (t[0] == "openstr") {
      std::ifstream in(t[1].c_str()); std::vector<std::string> lines; std::string l;
      while (std::getline(in, l)) lines.push_back(l + "\n");
      if (comm.rank() != 0 && t[2] == "1") lines.clear();   // only the first process has to hold the text
      j.k("r", cfg.openStringFile(lines, comm));
    } else if (t[0] == "root") { cur.reset(); j.k("r", true); }
    else if (t[0] == "cur") { Cfg::CursorPtr p = c->getCursor(t[1]); j.k("r", (bool)p); if (p) { stack.push_back(p); cur = p; } }
    else if (t[0] == "kids") {
      Cfg::ChildElements e; Cfg::ChildCursors cc;
      c->children(e); c->children(cc);
      Toks names; bool same = e.size() == cc.size();
      int want = atoi(t[1].c_str()), seen = 0;
      boost::shared_ptr<Cfg> next;
      for (size_t q = 0; q < e.size(); q++) {
        if (e[q].name[0] == '<') continue;
        names.push_back(e[q].name);
        if (seen++ == want) next = t[2] == "1" && same ? cc[q] : e[q].cursor;
      }
      j.k("r", same).k("names", names);
      if (want >= 0 && next) { cur = next; stack.push_back(next); }
    } else if (t[0] == "g") j = cfgGet(c, t);
    j.k("t", "cfg").k("case", id).k("n", (int)i);
    out.rec(j);
  }
  comm = world;
}

// ---------------------------------------------------------------- strings
static void runStr(const std::string &id, const std::vector<Toks> &ops, Out &out) {
  gridpack::utility::StringUtils u;
  for (size_t i = 0; i < ops.size(); i++) {
    const Toks &t = ops[i];
    J j; std::string s = t[1]; const std::string o = t[0];
    try {
      if (o == "trim") { u.trim(s); j.k("v", s); }
      else if (o == "up") { u.toUpper(s); j.k("v", s); }
      else if (o == "low") { u.toLower(s); j.k("v", s); }
      else if (o == "c2") j.k("v", u.clean2Char(s));
      else if (o == "tq") j.k("v", u.trimQuotes(s));
      else if (o == "blank") { j.k("v", u.blankTokenizer(s)); }
      else if (o == "char") { j.k("v", u.charTokenizer(s, t[2].c_str())); }
      else if (o == "bool") { j.k("v", u.getBool(s)).k("w", u.getBool(s.c_str())); }
    } catch (const std::exception &e) { j.k("exc", std::string(e.what())); }
    j.k("t", "str").k("case", id).k("n", (int)i);
    out.rec(j);
  }
}

// ---------------------------------------------------------------- statistics
static void runStat(const std::string &id, const std::vector<Toks> &ops, Out &out, gridpack::parallel::Communicator &world) {
  // first line: par nrows ncols seed ncolors branch maskmax scale
  const Toks &p = ops[0];
  int nr = atoi(p[1].c_str()), nc = atoi(p[2].c_str()), K = atoi(p[4].c_str()), branch = atoi(p[5].c_str()), mm = atoi(p[6].c_str());
  uint64_t S = strtoull(p[3].c_str(), NULL, 10);
  gridpack::parallel::Communicator comm = world;
  int color = out.rank % K;
  if (K > 1) comm = world.split(color);
  S += color;
  int me = comm.rank(), np = comm.size();
  {
    gridpack::analysis::StatBlock sb(comm, nr, nc);
    for (size_t i = 1; i < ops.size(); i++) {
      const Toks &t = ops[i];
      if (t[0] == "cols") { // every column from the process a hash names
        uint64_t h = strtoull(t[1].c_str(), NULL, 10);
        std::vector<int> order;
        for (int q = 0; q < nc; q++) order.push_back(q);
        Rng g(hsh(S, me, 3)); for (int q = nc - 1; q > 0; q--) std::swap(order[q], order[g.below(q + 1)]);
        for (int q : order) if ((int)(hsh(h, q) % np) == me) {
          std::vector<double> v; std::vector<int> m;
          for (int r = 0; r < nr; r++) { v.push_back(hval(hsh(S, r, q, 1))); m.push_back((int)(hsh(S, r, q, 2) % (mm + 1))); }
          sb.addColumnValues(q, v, m);
        }
      } else if (t[0] == "labels") {
        int who = atoi(t[1].c_str());
        if (who < 0 || who % np == me) {
          std::vector<int> a, b; Toks tags;
          for (int r = 0; r < nr; r++) { a.push_back((int)(hsh(S, r, 5) % 100000)); b.push_back((int)(hsh(S, r, 6) % 100000)); tags.push_back(std::string(1, 'A' + hsh(S, r, 7) % 26) + (hsh(S, r, 8) % 2 ? std::to_string(hsh(S, r, 9) % 10) : "")); }
          if (branch) sb.addRowLabels(a, b, tags); else sb.addRowLabels(a, tags);
        }
      } else if (t[0] == "min" || t[0] == "max") {
        int who = atoi(t[1].c_str());
        if (who < 0 || who % np == me) {
          std::vector<double> v; for (int r = 0; r < nr; r++) v.push_back(hval(hsh(S, r, t[0] == "min" ? 10 : 11)));
          if (t[0] == "min") sb.addRowMinValue(v); else sb.addRowMaxValue(v);
        }
      } else {
        std::string f = id + "." + std::to_string(color) + "." + std::to_string(i) + ".stat";
        int mval = atoi(t[1].c_str()); bool flag = t[2] == "1";
        if (t[0] == "mean") { if (mval == 1 && flag) sb.writeMeanAndRMS(f); else sb.writeMeanAndRMS(f, mval, flag); }
        else if (t[0] == "minmax") sb.writeMinAndMax(f, mval, flag);
        else if (t[0] == "count") sb.writeMaskValueCount(f, mval, flag);
        else if (t[0] == "sum") sb.sumColumnValues(f, mval);
      }
    }
  }
  J j; j.k("t", "stat").k("case", id).k("color", color).k("me", me); out.rec(j);
}

int main(int argc, char **argv) {
  gridpack::Environment env(argc, argv);
  if (argc < 3) harnessFail("usage");
  quietStdout();
  {
    Out out(argv[2]);
    gridpack::parallel::Communicator world;
    std::ifstream in(argv[1]);
    if (!in) harnessFail("cases");
    struct C { std::string id, kind; std::vector<Toks> ops; };
    std::vector<C> cs;
    std::string l;
    while (std::getline(in, l)) {
      Toks t = split(l);
      if (t.empty()) continue;
      if (t[0] == "case") { C c; c.id = t[1]; c.kind = t[2]; cs.push_back(c); }
      else cs.back().ops.push_back(t);
    }
    for (C &c : cs) {
      out.begin(c.id);
      try {
        if (c.kind == "dc") runDC(c.id, c.ops, out);
        else if (c.kind == "cfg") runCfg(c.id, c.ops, out, world);
        else if (c.kind == "str") runStr(c.id, c.ops, out);
        else if (c.kind == "stat") runStat(c.id, c.ops, out, world);
        else harnessFail("kind");
      } catch (const std::exception &e) { out.viol(c.id, "exception", e.what()); fflush(out.f); _exit(70); }
      world.barrier();
    }
    out.done();
  }
  return 0;
}
