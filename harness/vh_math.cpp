// Driver for the linear algebra layer: programs of vector and matrix operations.
//   vh_math alg CASES OUT
#include "vh_netlib.hpp"
#include <petscts.h>
#include "gridpack/math/math.hpp"
#include "gridpack/math/vector.hpp"
#include "gridpack/math/matrix.hpp"
#include "gridpack/math/linear_solver.hpp"
#include "gridpack/math/linear_matrix_solver.hpp"
#include "gridpack/math/nonlinear_solver.hpp"
#include "gridpack/math/newton_raphson_solver.hpp"
#include "gridpack/math/dae_solver.hpp"
#include "gridpack/math/dae_event.hpp"
#include "gridpack/configuration/configuration.hpp"
#include "gridpack/configuration/no_print.hpp"
#include <memory>
#include <algorithm>
#include <type_traits>

using namespace gridpack;

template <class T> struct Tr;
template <> struct Tr<ComplexType> {
  static ComplexType val(uint64_t h) { return ComplexType(vh::hval(h), vh::hval(vh::mix(h))); }
  static void put(std::string &s, const ComplexType &x) { s += vh::J::num(x.real()); s += ','; s += vh::J::num(x.imag()); }
};
template <> struct Tr<double> {
  static double val(uint64_t h) { return vh::hval(h); }
  static void put(std::string &s, double x) { s += vh::J::num(x); }
};
static std::vector<std::string> cut(const std::string &s, char d) {
  std::vector<std::string> r; std::string w; std::istringstream in(s);
  while (std::getline(in, w, d)) r.push_back(w);
  return r;
}

template <class T> struct Alg {
  typedef math::VectorT<T> Vec;
  typedef math::MatrixT<T> Mat;
  vh::Out &out; const vh::NetIn &in; std::string cs; int color; parallel::Communicator comm; int me, np;
  std::vector<std::vector<int> > lay;               // local sizes per space and process
  std::unique_ptr<Vec> V[8]; std::unique_ptr<Mat> M[8];
  int step;
  Alg(vh::Out &o, const vh::NetIn &n, const std::string &c, int col, const parallel::Communicator &cm)
    : out(o), in(n), cs(c), color(col), comm(cm), me(cm.rank()), np(cm.size()), step(0) {
    for (int s = 0; ; s++) {
      auto it = in.par.find("lay" + std::to_string(s));
      if (it == in.par.end()) break;
      lay.push_back(std::vector<int>());
      for (auto &w : cut(it->second, ',')) lay.back().push_back(atoi(w.c_str()));
    }
  }
  vh::J rec(const char *t) { vh::J j; j.k("t", t).k("case", cs).k("color", color).k("me", me).k("step", step); return j; }
  int glob(int s) const { int n = 0; for (int x : lay[s]) n += x; return n; }
  int ownerOf(int s, int i) const { int r = 0; while (i >= lay[s][r]) i -= lay[s][r++]; return r; }
  uint64_t h(int k, int i, int j = 0) const { return vh::hsh(in.seed, k, i, j); }
  T val(int k, int i, int j = 0) const { return Tr<T>::val(h(k, i, j)); }

  std::vector<T> local(const Vec &v) {
    int lo, hi; v.localIndexRange(lo, hi);
    std::vector<T> x(hi - lo + 1, T(-77.0));
    int n = hi - lo;
    if (n) switch (step % 3) {
      case 0: v.getElementRange(lo, hi, &x[0]); break;
      case 1: { std::vector<int> ix; for (int i = hi - 1; i >= lo; i--) ix.push_back(i);
                std::vector<T> y(n); v.getElements(n, &ix[0], &y[0]); for (int i = 0; i < n; i++) x[n - 1 - i] = y[i]; } break;
      default: for (int i = lo; i < hi; i++) v.getElement(i, x[i - lo]);
    }
    x.resize(n);
    return x;
  }
  std::string txt(const std::vector<T> &x) {
    std::string s = "[";
    for (size_t i = 0; i < x.size(); i++) { if (i) s += ","; Tr<T>::put(s, x[i]); }
    return s + "]";
  }
  void dumpV(int r, const char *t) {
    Vec &v = *V[r];
    int lo, hi; v.localIndexRange(lo, hi);
    std::vector<T> x = local(v);
    vh::J j = rec(t);
    // the gathered form must be the concatenation of the local parts
    std::vector<T> all(v.size() + 1, T(-55.0));
    v.getAllElements(&all[0]);
    bool tail = all[v.size()] == T(-55.0);
    MPI_Comm mc = static_cast<MPI_Comm>(comm);
    int nb = (int)(x.size() * sizeof(T)); std::vector<int> cnt(np), off(np + 1, 0);
    MPI_Allgather(&nb, 1, MPI_INT, &cnt[0], 1, MPI_INT, mc);
    for (int p = 0; p < np; p++) off[p + 1] = off[p] + cnt[p];
    std::vector<T> ref(off[np] / sizeof(T) + 1);
    x.resize(x.size() + 1);
    MPI_Allgatherv(&x[0], nb, MPI_BYTE, &ref[0], &cnt[0], &off[0], MPI_BYTE, mc);
    x.pop_back();
    bool same = tail && (int)(off[np] / sizeof(T)) == v.size() && memcmp(&ref[0], &all[0], off[np]) == 0;
    j.k("reg", r).k("size", v.size()).k("lsize", v.localSize()).k("lo", lo).k("hi", hi).k("gathered", same).raw("x", txt(x));
    out.rec(j);
  }
  void dumpMat(const Mat &m, int r, const char *t) {
    int lo, hi; m.localRowRange(lo, hi);
    int nc = m.cols(), n = (hi - lo) * nc;
    std::vector<T> x(n + 1, T(-77.0)); std::vector<int> ix, jx;
    if (step % 2) { for (int i = lo; i < hi; i++) for (int j = 0; j < nc; j++) m.getElement(i, j, x[(i - lo) * nc + j]); }
    else {
      for (int i = lo; i < hi; i++) for (int j = 0; j < nc; j++) { ix.push_back(i); jx.push_back(j); }
      if (n) m.getElements(n, &ix[0], &jx[0], &x[0]);
    }
    x.resize(n);
    vh::J j = rec(t);
    j.k("reg", r).k("rows", m.rows()).k("cols", m.cols()).k("lrows", m.localRows()).k("lcols", m.localCols()).k("lo", lo).k("hi", hi);
    j.k("dense", m.storageType() == math::Dense).raw("x", txt(x));
    out.rec(j);
  }
  std::vector<int> mine(int s) const { int lo = 0; for (int p = 0; p < me; p++) lo += lay[s][p]; std::vector<int> r; for (int i = 0; i < lay[s][me]; i++) r.push_back(lo + i); return r; }
  bool inPat(int p, int dens, int i, int j) const { return i == j || (int)(vh::hsh(in.seed, 7000 + p, i, j) % 100) < dens; }

  // f: fields of the operation; returns 'v'/'m' and the register it changed
  void run(const std::vector<std::string> &f) {
    const std::string &op = f[0];
    auto A = [&](size_t i) { return i < f.size() ? atoi(f[i].c_str()) : 0; };
    int r = A(1), a = A(2), b = A(3), c = A(4), d = A(5);
    char kind = 0;
    vh::Rng g(vh::hsh(in.seed, 900 + step, me));
    std::string file = "f." + std::to_string(color) + "." + std::to_string(step);
    if (op == "new") { V[r].reset(new Vec(comm, lay[a][me])); V[r]->zero(); V[r]->ready(); kind = 'v'; }
    else if (op == "set") {                                        // r, space, how, key
      std::vector<int> ix = mine(a); std::vector<T> x; for (int i : ix) x.push_back(val(c, i));
      if (b == 0) for (size_t i = ix.size(); i-- > 0; ) V[r]->setElement(ix[i], x[i]);
      else if (b == 1) {
        for (size_t i = ix.size(); i > 1; i--) { size_t k = g.below((int)i); std::swap(ix[i-1], ix[k]); std::swap(x[i-1], x[k]); }
        if (!ix.empty()) V[r]->setElements((int)ix.size(), &ix[0], &x[0]);
      } else if (b == 2) { if (!ix.empty()) V[r]->setElementRange(ix.front(), ix.back() + 1, &x[0]); }
      else for (size_t i = 0; i < ix.size(); i++) if (h(c, ix[i], 3) & 1) V[r]->setElement(ix[i], x[i]);
      V[r]->ready(); kind = 'v';
    } else if (op == "add") {
      std::vector<int> ix = mine(a); std::vector<T> x;
      if (b == 0) { for (int i : ix) for (int q = 0; q < (int)(h(c, i, 3) % 3); q++) V[r]->addElement(i, val(c, i, 10 + q)); }
      else if (b == 1) {
        std::vector<int> iy;
        for (int q = 0; q < 3; q++) for (int i : ix) if (q < (int)(h(c, i, 3) % 3)) { iy.push_back(i); x.push_back(val(c, i, 10 + q)); }
        if (!iy.empty()) V[r]->addElements((int)iy.size(), &iy[0], &x[0]);
      } else { for (int i : ix) x.push_back(val(c, i, 10)); if (!ix.empty()) V[r]->addElementRange(ix.front(), ix.back() + 1, &x[0]); }
      V[r]->ready(); kind = 'v';
    }
    else if (op == "fill") { V[r]->fill(val(a, 0)); kind = 'v'; }
    else if (op == "zero") { V[r]->zero(); kind = 'v'; }
    else if (op == "scale") { V[r]->scale(val(a, 0)); kind = 'v'; }
    else if (op == "addc") { V[r]->add(val(a, 0)); kind = 'v'; }
    else if (op == "axpy") { V[r]->add(*V[a], val(b, 0)); kind = 'v'; }
    else if (op == "axp1") { V[r]->add(*V[a]); kind = 'v'; }
    else if (op == "equ") { V[r]->equate(*V[a]); kind = 'v'; }
    else if (op == "mul") { V[r]->elementMultiply(*V[a]); kind = 'v'; }
    else if (op == "div") { V[r]->elementDivide(*V[a]); kind = 'v'; }
    else if (op == "abs") { V[r]->abs(); kind = 'v'; }
    else if (op == "real") { V[r]->real(); kind = 'v'; }
    else if (op == "imag") { V[r]->imaginary(); kind = 'v'; }
    else if (op == "conj") { V[r]->conjugate(); kind = 'v'; }
    else if (op == "exp") { V[r]->exp(); kind = 'v'; }
    else if (op == "rec") { V[r]->reciprocal(); kind = 'v'; }
    else if (op == "cln") { V[r].reset(V[a]->clone()); kind = 'v'; }
    else if (op == "fabs") { V[r].reset(math::abs(*V[a])); kind = 'v'; }
    else if (op == "freal") { V[r].reset(math::real(*V[a])); kind = 'v'; }
    else if (op == "fimag") { V[r].reset(math::imaginary(*V[a])); kind = 'v'; }
    else if (op == "fconj") { V[r].reset(math::conjugate(*V[a])); kind = 'v'; }
    else if (op == "fadd") { V[r].reset(math::add(*V[a], *V[b])); kind = 'v'; }
    else if (op == "addr") { math::add(*V[a], *V[b], *V[r]); kind = 'v'; }
    else if (op == "loc") {                                        // work on the raw local array
      T *p = V[r]->getLocalElements();
      int n = V[r]->localSize(); int lo, hi; V[r]->localIndexRange(lo, hi);
      for (int i = 0; i < n; i++) p[i] = p[i] + val(a, lo + i);
      V[r]->releaseLocalElements(p); kind = 'v';
    }
    else if (op == "norm") { vh::J j = rec("n"); j.k("reg", r).k("n1", V[r]->norm1()).k("n2", V[r]->norm2()).k("ni", V[r]->normInfinity()); out.rec(j); }
    else if (op == "lcl") {
      std::unique_ptr<Vec> q(V[r]->localClone());
      vh::J j = rec("lc"); int lo, hi; q->localIndexRange(lo, hi);
      j.k("reg", r).k("size", q->size()).k("lo", lo).k("hi", hi).k("procs", q->processor_size()).raw("x", txt(local(*q)));
      out.rec(j);
    }
    else if (op == "sav") { V[a]->saveBinary(file.c_str()); V[r]->loadBinary(file.c_str()); kind = 'v'; }
    // ------------------------------------------------ matrices
    else if (op == "mnew") {                                       // r, type, row space, col space, pattern, density
      int lr = lay[b][me], lc = lay[c][me], nc = glob(c), dens = A(6);
      if (a == 0) M[r].reset(new Mat(comm, lr, lc, math::Sparse));
      else if (a == 1) M[r].reset(new Mat(comm, lr, lc, math::Dense));
      else if (a == 2 || a == 3) {
        std::vector<int> nz; int mx = 0;
        for (int i : mine(b)) { int n = 0; for (int j = 0; j < nc; j++) n += inPat(d, dens, i, j); nz.push_back(n); mx = std::max(mx, n); }
        if (a == 3) { nz.push_back(0); M[r].reset(new Mat(comm, lr, lc, (const int *)&nz[0])); }
        else { int gm = 0; MPI_Allreduce(&mx, &gm, 1, MPI_INT, MPI_MAX, static_cast<MPI_Comm>(comm)); M[r].reset(new Mat(comm, lr, lc, gm)); }
      } else if (a == 4) M[r].reset(Mat::createDense(comm, 0, 0, lr, lc));
      else if (a == 5) M[r].reset(Mat::createDense(comm, glob(b), glob(c), lr, lc));
      else if (a == 6) M[r].reset(Mat::createDense(comm, glob(b), glob(c), 0, 0));
      else if (a == 7) M[r].reset(Mat::createDense(comm, 0, nc, lr, 0));
      else M[r].reset(Mat::createDense(comm, glob(b), 0, 0, lc));
      int lo, hi; M[r]->localRowRange(lo, hi);
      vh::J j = rec("mn"); j.k("reg", r).k("rows", M[r]->rows()).k("cols", M[r]->cols()).k("lrows", M[r]->localRows()).k("lcols", M[r]->localCols()).k("lo", lo).k("hi", hi).k("dense", M[r]->storageType() == math::Dense);
      out.rec(j);
    }
    else if (op == "mset" || op == "madd") {                       // r, row space, col space, pattern, dens, key, own, bulk
      int dens = A(5), key = A(6), own = A(7), bulk = A(8); bool ins = op == "mset";
      int nr = glob(a), nc = glob(b); std::vector<int> ix, jx; std::vector<T> x;
      for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) {
        if (!inPat(c, dens, i, j)) continue;
        int who = own ? ownerOf(a, i) : (int)(vh::hsh(in.seed, key + 1, i, j) % np);
        int reps = ins ? 1 : 1 + (int)(h(key, i, 500 + j) % 2);
        for (int q = 0; q < reps; q++) {
          if (!ins && !own) who = (int)(vh::hsh(in.seed, key + 1 + q, i, j) % np);
          if (who == me) { ix.push_back(i); jx.push_back(j); x.push_back(val(key, i, j * 4 + q)); }
        }
      }
      for (size_t i = ix.size(); i > 1; i--) { size_t k = g.below((int)i); std::swap(ix[i-1], ix[k]); std::swap(jx[i-1], jx[k]); std::swap(x[i-1], x[k]); }
      if (bulk) { if (!ix.empty()) { if (ins) M[r]->setElements((int)ix.size(), &ix[0], &jx[0], &x[0]); else M[r]->addElements((int)ix.size(), &ix[0], &jx[0], &x[0]); } }
      else for (size_t i = 0; i < ix.size(); i++) { if (ins) M[r]->setElement(ix[i], jx[i], x[i]); else M[r]->addElement(ix[i], jx[i], x[i]); }
      M[r]->ready(); kind = 'm';
    }
    else if (op == "mzero") { M[r]->zero(); kind = 'm'; }
    else if (op == "mident") { M[r]->identity(); kind = 'm'; }
    else if (op == "mscale") { M[r]->scale(val(a, 0)); kind = 'm'; }
    else if (op == "maddd") { M[r]->addDiagonal(val(a, 0)); kind = 'm'; }
    else if (op == "mdiagv") { M[r]->addDiagonalVector(*V[a]); kind = 'm'; }
    else if (op == "mmuld") { M[r]->multiplyDiagonal(*V[a]); kind = 'm'; }
    else if (op == "mplus") { M[r]->add(*M[a]); kind = 'm'; }
    else if (op == "mequ") { M[r]->equate(*M[a]); kind = 'm'; }
    else if (op == "mreal") { M[r]->real(); kind = 'm'; }
    else if (op == "mimag") { M[r]->imaginary(); kind = 'm'; }
    else if (op == "mconj") { M[r]->conjugate(); kind = 'm'; }
    else if (op == "mcln") { M[r].reset(M[a]->clone()); kind = 'm'; }
    else if (op == "mfadd") { M[r].reset(math::add(*M[a], *M[b])); kind = 'm'; }
    else if (op == "mfid") { M[r].reset(math::identity(*M[a])); kind = 'm'; }
    else if (op == "mfreal") { M[r].reset(math::real(*M[a])); kind = 'm'; }
    else if (op == "mfimag") { M[r].reset(math::imaginary(*M[a])); kind = 'm'; }
    else if (op == "mfconj") { M[r].reset(math::conjugate(*M[a])); kind = 'm'; }
    else if (op == "mt") { M[r].reset(math::transpose(*M[a])); kind = 'm'; }
    else if (op == "mmm") { M[r].reset(math::multiply(*M[a], *M[b])); kind = 'm'; }
    else if (op == "mmmr") { math::multiply(*M[a], *M[b], *M[r]); kind = 'm'; }
    else if (op == "mstor") { M[r].reset(math::storageType(*M[a], b ? math::Dense : math::Sparse)); kind = 'm'; }
    else if (op == "mdiag") { M[r].reset(math::diagonal(*V[a], b ? math::Dense : math::Sparse)); kind = 'm'; }
    else if (op == "mload") { M[a]->saveBinary(file.c_str()); M[r]->loadBinary(file.c_str()); kind = 'm'; }
    else if (op == "mfile") {                                      // own distribution: looked at and dropped
      M[r]->saveBinary(file.c_str());
      std::unique_ptr<Mat> q(math::matrixLoadBinary<T, int>(comm, file.c_str()));
      dumpMat(*q, -1, "mf");
    }
    else if (op == "mlcl") { std::unique_ptr<Mat> q(M[r]->localClone()); dumpMat(*q, r, "ml"); }
    else if (op == "mnorm") { vh::J j = rec("mno"); j.k("reg", r).k("n2", M[r]->norm2()); out.rec(j); }
    else if (op == "rows") {                                       // every process asks for other rows
      std::vector<int> rows; int nr = M[r]->rows(), nc = M[r]->cols();
      for (int i = 0; i < nr; i++) if (h(a, i, 40 + me) % 100 < (uint64_t)b) rows.push_back(i);
      for (size_t i = rows.size(); i > 1; i--) std::swap(rows[i-1], rows[g.below((int)i)]);
      std::vector<T> x(rows.size() * nc + 1, T(-33.0));
      std::vector<int> rr(rows); rr.push_back(0);
      M[r]->getRowBlock((int)rows.size(), &rr[0], &x[0]);
      bool tail = x.back() == T(-33.0); x.pop_back();
      vh::J j = rec("rb"); j.k("reg", r).raw("rows", vh::J::v(rows)).k("tail", tail).raw("x", txt(x)); out.rec(j);
    }
    else if (op == "row") {
      int nr = M[r]->rows(), nc = M[r]->cols(); int i = (int)(h(a, me, 41) % nr);
      std::vector<T> x(nc + 1, T(-33.0)); M[r]->getRow(i, &x[0]); bool tail = x.back() == T(-33.0); x.pop_back();
      vh::J j = rec("rb"); j.k("reg", r).raw("rows", vh::J::v(std::vector<int>(1, i))).k("tail", tail).raw("x", txt(x)); out.rec(j);
    }
    // ------------------------------------------------ both
    else if (op == "mv") { math::multiply(*M[a], *V[b], *V[r]); kind = 'v'; }
    else if (op == "mvn") { V[r].reset(math::multiply(*M[a], *V[b])); kind = 'v'; }
    else if (op == "tmv") { math::transposeMultiply(*M[a], *V[b], *V[r]); kind = 'v'; }
    else if (op == "tmvn") { V[r].reset(math::transposeMultiply(*M[a], *V[b])); kind = 'v'; }
    else if (op == "col") { math::column(*M[a], b, *V[r]); kind = 'v'; }
    else if (op == "coln") { V[r].reset(math::column(*M[a], b)); kind = 'v'; }
    else if (op == "dg") { math::diagonal(*M[a], *V[r]); kind = 'v'; }
    else if (op == "dgn") { V[r].reset(math::diagonal(*M[a])); kind = 'v'; }
    else vh::harnessFail(("operation " + op).c_str());
    if (kind == 'v') dumpV(r, "v");
    if (kind == 'm') dumpMat(*M[r], r, "m");
  }
  void go() {
    std::vector<std::string> ops = cut(in.par.at("prog"), '|');
    for (step = 0; step < (int)ops.size(); step++) {
      try { run(cut(ops[step], ':')); }
      catch (const std::exception &e) { out.viol(cs, "exception:" + cut(ops[step], ':')[0], "step " + std::to_string(step) + " " + ops[step] + ": " + e.what()); fflush(out.f); _exit(70); }
    }
    for (int r = 0; r < 8; r++) if (V[r]) dumpV(r, "fv");
    for (int r = 0; r < 8; r++) if (M[r]) dumpMat(*M[r], r, "fm");
  }
};

// XML text from "Key=value;Key=value" (~ stands for a blank)
static utility::Configuration::CursorPtr config(utility::Configuration &conf, const std::string &outer, const std::string &body, const parallel::Communicator &comm) {
  std::vector<std::string> l;
  l.push_back("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Configuration>\n");
  std::vector<std::string> tags = cut(outer, '/');
  for (auto &t : tags) l.push_back("<" + t + ">\n");
  for (auto &kv : cut(body, ';')) {
    size_t e = kv.find('='); std::string k = kv.substr(0, e), v = kv.substr(e + 1);
    for (auto &ch : v) if (ch == '~') ch = ' ';
    l.push_back("<" + k + ">" + v + "</" + k + ">\n");
  }
  for (size_t i = tags.size(); i-- > 0; ) l.push_back("</" + tags[i] + ">\n");
  l.push_back("</Configuration>\n");
  conf.openStringFile(l, comm);
  return conf.getCursor("Configuration");
}

// ------------------------------------------------------------ L03
template <class T> void doLin(Alg<T> &g) {
  typedef math::VectorT<T> Vec; typedef math::MatrixT<T> Mat;
  const vh::NetIn &in = g.in;
  int n = g.glob(0), dens = in.ip("dens"), type = in.ip("type"), akey = 0;
  auto fillA = [&](Mat &A, int key, int pat) {
    int lo, hi; A.localRowRange(lo, hi);
    for (int i = lo; i < hi; i++) {
      double sum = 0;
      for (int j = 0; j < n; j++) if (i != j && g.inPat(pat, dens, i, j)) { T x = g.val(key, i, j); sum += std::abs(x); A.setElement(i, j, x); }
      T x = g.val(key, i, i); double s = std::abs(x); if (s < 1e-3) { x = T(1.0); s = 1.0; }
      A.setElement(i, i, x * T((1.0 + 1.3 * sum) / s));
    }
    A.ready();
  };
  std::unique_ptr<Mat> A;
  if (type == 0) A.reset(new Mat(g.comm, g.lay[0][g.me], g.lay[0][g.me], math::Sparse));
  else if (type == 1) A.reset(new Mat(g.comm, g.lay[0][g.me], g.lay[0][g.me], math::Dense));
  else A.reset(new Mat(g.comm, g.lay[0][g.me], g.lay[0][g.me], n));
  fillA(*A, akey = 11, 0);
  utility::Configuration conf;
  utility::Configuration::CursorPtr cur = config(conf, in.par.at("tag"), in.par.count("cfg") ? in.par.at("cfg") : "", g.comm);
  std::string prog = in.par.at("prog");
  std::unique_ptr<math::LinearSolverT<T> > S; std::unique_ptr<math::LinearMatrixSolverT<T> > L;
  if (in.ip("ls")) { S.reset(new math::LinearSolverT<T>(*A)); S->configure(cur); }
  if (in.ip("lms")) { L.reset(new math::LinearMatrixSolverT<T>(*A)); L->configure(cur); }
  Vec x(g.comm, g.lay[0][g.me]), b(g.comm, g.lay[0][g.me]);
  for (g.step = 0; g.step < (int)prog.size(); g.step++) {
    int key = 100 + 10 * g.step; char op = prog[g.step];
    auto fillV = [&](Vec &v, int k, int keep) { for (int i : g.mine(0)) v.setElement(i, keep ? T(0.0) : g.val(k, i)); v.ready(); };
    try {
      if (op == 'A') { fillA(*A, akey = key, 0); continue; }
      if (op == 'S' || op == 'R' || op == 's' || op == 'r') {
        fillV(b, key, 0); fillV(x, key + 1, op == 's' || op == 'r');
        if (op == 'S' || op == 's') S->solve(b, x); else S->resolve(b, x);
        std::vector<T> lx = g.local(x), lb = g.local(b);
        vh::J j = g.rec("x"); j.k("op", std::string(1, op)).k("akey", akey).raw("x", g.txt(lx)).raw("b", g.txt(lb)); g.out.rec(j);
      } else if (op == 'B' || op == 'M') {                       // many right hand sides, over space 1
        std::unique_ptr<Mat> B(new Mat(g.comm, g.lay[0][g.me], g.lay[1][g.me], in.ip("bdense") || op == 'M' ? math::Dense : math::Sparse));
        int nc = g.glob(1);
        for (int i : g.mine(0)) for (int c = 0; c < nc; c++) if (op == 'M' || in.ip("bdense") || g.h(key + 5, i, c) % 3) B->setElement(i, c, g.val(key, i, c));
        B->ready();
        std::unique_ptr<Mat> X(op == 'B' ? S->solve(*B) : L->solve(*B));
        g.dumpMat(*B, -1, "B");
        vh::J j = g.rec("Bk"); j.k("op", std::string(1, op)).k("akey", akey); g.out.rec(j);
        g.dumpMat(*X, -1, "X");
      }
    } catch (const std::exception &e) { g.out.viol(g.cs, std::string("exception:") + op, "step " + std::to_string(g.step) + " of " + prog + ": " + e.what()); fflush(g.out.f); _exit(70); }
  }
}

// ------------------------------------------------------------ L04
// F(x) = A x + c phi(x) - b with a diagonally dominant A and b chosen so that x* is a solution
template <class T> static int n0(Alg<T> &g) { return g.glob(0); }
template <class T> struct NlProblem {
  typedef math::VectorT<T> Vec; typedef math::MatrixT<T> Mat;
  Alg<T> &g; int n, s, nf, nj; std::vector<std::vector<std::pair<int, T> > > A; std::vector<T> b; bool log;
  NlProblem(Alg<T> &q) : g(q), n(q.glob(0)), s(0), nf(0), nj(0), A(n), b(n), log(true) {
    int dens = g.in.ip("dens");
    for (int i = 0; i < n; i++) {
      double sum = 0;
      for (int j = 0; j < n; j++) if (i != j && g.inPat(0, dens, i, j)) { T x = g.val(11, i, j); sum += std::abs(x); A[i].push_back(std::make_pair(j, x)); }
      T x = g.val(11, i, i); double m = std::abs(x); if (m < 1e-3) { x = T(1.0); m = 1.0; }
      A[i].push_back(std::make_pair(i, x * T((1.0 + 1.3 * sum) / m)));
    }
  }
  int kind(int i) const { return (int)(g.h(22, i) % 4); }
  int mate(int i) const { return (int)(g.h(23, i) % n); }
  T coef(int i) const { return g.val(21, i) * T(g.in.ip("cpct") * 0.01); }
  T term(int i, const std::vector<T> &x) const {
    switch (kind(i)) { case 0: return x[i] * x[i]; case 1: return x[i] * x[mate(i)]; case 2: return x[i] * x[i] * x[i]; default: return std::sin(x[i]); }
  }
  void start(int step) {
    s = step;
    std::vector<T> xs(n);
    for (int i = 0; i < n; i++) xs[i] = g.val(1000 + 10 * s, i);
    for (int i = 0; i < n; i++) { b[i] = coef(i) * term(i, xs); for (auto &e : A[i]) b[i] += e.second * xs[e.first]; }
  }
  std::vector<T> all(const Vec &x) { std::vector<T> r(n + 1); x.getAllElements(&r[0]); r.resize(n); return r; }
  void note(const char *t, const std::vector<T> &x) {
    if (g.me == 0 && log) { vh::J j = g.rec(t); j.raw("x", g.txt(x)); g.out.rec(j); }
  }
  void F(const Vec &X, Vec &R) {
    nf++;
    std::vector<T> x = all(X);
    note("F", x);
    for (int i : g.mine(0)) { T f = coef(i) * term(i, x) - b[i]; for (auto &e : A[i]) f += e.second * x[e.first]; R.setElement(i, f); }
    R.ready();
  }
  void J(const Vec &X, Mat &M) {
    nj++;
    std::vector<T> x = all(X);
    note("J", x);
    for (int i : g.mine(0)) {
      std::map<int, T> row;
      for (auto &e : A[i]) row[e.first] += e.second;
      T c = coef(i); int k = mate(i);
      switch (kind(i)) {
        case 0: row[i] += c * x[i] * T(2.0); break;
        case 1: row[i] += c * x[k]; row[k] += c * x[i]; break;
        case 2: row[i] += c * x[i] * x[i] * T(3.0); break;
        default: row[i] += c * std::cos(x[i]);
      }
      for (auto &e : row) M.setElement(i, e.first, e.second);
    }
    M.ready();
  }
};
template <class T> void doNls(Alg<T> &g) {
  typedef math::VectorT<T> Vec; typedef math::MatrixT<T> Mat;
  const vh::NetIn &in = g.in;
  NlProblem<T> P(g);
  utility::Configuration conf;
  utility::Configuration::CursorPtr cur = config(conf, in.par.at("tag"), in.par.count("cfg") ? in.par.at("cfg") : "", g.comm);
  typename math::NonlinearSolverT<T>::JacobianBuilder jb = [&](const Vec &x, Mat &m) { P.J(x, m); };
  typename math::NonlinearSolverT<T>::FunctionBuilder fb = [&](const Vec &x, Vec &f) { P.F(x, f); };
  std::unique_ptr<Mat> J;
  if (in.ip("ownj")) J.reset(new Mat(g.comm, g.lay[0][g.me], g.lay[0][g.me], math::Sparse));
  std::unique_ptr<math::NonlinearSolverT<T> > S;
  if (in.ip("newton")) S.reset(J ? new math::NewtonRaphsonSolverT<T>(*J, jb, fb) : new math::NewtonRaphsonSolverT<T>(g.comm, g.lay[0][g.me], jb, fb));
  else S.reset(J ? new math::NonlinearSolverT<T>(*J, jb, fb) : new math::NonlinearSolverT<T>(g.comm, g.lay[0][g.me], jb, fb));
  S->configure(cur);
  Vec x(g.comm, g.lay[0][g.me]);
  std::string prog = in.par.at("prog");
  for (g.step = 0; g.step < (int)prog.size(); g.step++) {
    char op = prog[g.step];
    if (op == 't') { S->tolerance(1e-3); S->maximumIterations(40); }
    if (op == 'u') { S->tolerance(1e-8); S->maximumIterations(2); }
    P.start(g.step); P.nf = P.nj = 0;
    double far = op == 'f' ? in.ip("far") : 0.01 * in.ip("near");
    for (int i : g.mine(0)) x.setElement(i, g.val(1000 + 10 * g.step, i) + g.val(1001 + 10 * g.step, i) * T(far));
    x.ready();
    std::string threw;
    try { S->solve(x); }
    catch (const std::exception &e) { threw = e.what(); if (threw.empty()) threw = "exception"; }
    std::vector<T> lx = g.local(x);
    vh::J j = g.rec("x"); j.k("op", std::string(1, op)).k("threw", threw).k("nf", P.nf).k("nj", P.nj).k("tol", S->tolerance()).k("maxit", S->maximumIterations())
      .k("rank", S->processor_rank()).k("size", S->processor_size()).raw("x", g.txt(lx)); g.out.rec(j);
  }
}

// ------------------------------------------------------------ L05
// m x' = A x + f0 + f1 t with some rows algebraic; events switch the forcing or move the state
// The interface between the solver and the integrator's event location. In the driven mode nothing is
// registered with PETSc; the callbacks are called from here after steps, with values chosen at random.
struct Hook {
  bool drive; TS ts; std::vector<int> dir, term; PetscErrorCode (*eval)(TS, PetscReal, Vec, PetscScalar[], void *);
  PetscErrorCode (*post)(TS, PetscInt, PetscInt[], PetscReal, Vec, PetscBool, void *); void *ctx;
};
static Hook hook;
extern "C" PetscErrorCode __real_TSSetEventHandler(TS, PetscInt, PetscInt[], PetscBool[], PetscErrorCode (*)(TS, PetscReal, Vec, PetscScalar[], void *),
                                                   PetscErrorCode (*)(TS, PetscInt, PetscInt[], PetscReal, Vec, PetscBool, void *), void *);
extern "C" PetscErrorCode __wrap_TSSetEventHandler(TS ts, PetscInt n, PetscInt dir[], PetscBool term[], PetscErrorCode (*eval)(TS, PetscReal, Vec, PetscScalar[], void *),
                                                   PetscErrorCode (*post)(TS, PetscInt, PetscInt[], PetscReal, Vec, PetscBool, void *), void *ctx) {
  hook.ts = ts; hook.eval = eval; hook.post = post; hook.ctx = ctx; hook.dir.clear(); hook.term.clear();
  for (int i = 0; i < n; i++) { hook.dir.push_back(dir[i]); hook.term.push_back(term[i] == PETSC_TRUE); }
  return hook.drive ? (PetscErrorCode)0 : __real_TSSetEventHandler(ts, n, dir, term, eval, post, ctx);
}

extern "C" PetscErrorCode __real_TSSetPostEventIntervalStep(TS, PetscReal);
extern "C" PetscErrorCode __wrap_TSSetPostEventIntervalStep(TS ts, PetscReal h) { return hook.drive ? (PetscErrorCode)0 : __real_TSSetPostEventIntervalStep(ts, h); }

template <class T> struct DaeProblem {
  typedef math::VectorT<T> Vec; typedef math::MatrixT<T> Mat;
  Alg<T> &g; int n; std::vector<std::vector<std::pair<int, T> > > A; std::vector<T> f0, f1; std::vector<int> m;
  int lo;
  bool handled; std::vector<T> before;
  DaeProblem(Alg<T> &q) : g(q), n(q.glob(0)), A(n), f0(n), f1(n), m(n), lo(0), handled(false) {
    for (int p = 0; p < g.me; p++) lo += g.lay[0][p];
    int dens = g.in.ip("dens");
    for (int i = 0; i < n; i++) {
      double sum = 0;
      for (int j = 0; j < n; j++) if (i != j && g.inPat(0, dens, i, j)) { T x = g.val(11, i, j); sum += std::abs(x); A[i].push_back(std::make_pair(j, x)); }
      A[i].push_back(std::make_pair(i, T(-(0.3 + 1.3 * sum))));
      m[i] = (int)(g.h(24, i) % 100) >= g.in.ip("algpct");
      f0[i] = g.val(25, i); f1[i] = g.val(26, i) * T(0.3);
    }
  }
  void F(double t, const Vec &X, const Vec &D, Vec &R) {
    std::vector<T> x(n + 1), d(n + 1); X.getAllElements(&x[0]); D.getAllElements(&d[0]);
    for (int i : g.mine(0)) { T f = T(m[i]) * d[i] - f0[i] - f1[i] * T(t); for (auto &e : A[i]) f -= e.second * x[e.first]; R.setElement(i, f); }
    R.ready();
  }
  void J(double, const Vec &, const Vec &, double a, Mat &M) {
    for (int i : g.mine(0)) {
      for (auto &e : A[i]) M.setElement(i, e.first, -e.second + (e.first == i ? T(a * m[i]) : T(0.0)));
    }
    M.ready();
  }
};
template <class T> struct DaeEvent : public math::DAEEventT<T> {
  DaeProblem<T> &P; int id, first; std::vector<int> comp, act; std::vector<double> lev;
  // id: which event object of this process; its values are levels of local components
  DaeEvent(DaeProblem<T> &p, int i, int nval, int base, int nloc) : math::DAEEventT<T>(nval), P(p), id(i), first(base) {
    this->p_stateIndex = base;
    for (int k = 0; k < nval; k++) {
      uint64_t h = P.g.h(40 + id, P.g.me, k);
      comp.push_back(base + (int)(h % (nloc - base))); act.push_back((int)((h >> 10) % 3)); lev.push_back(vh::hval(h >> 3) * 0.5);
      int d = (int)((h >> 20) % 3);
      this->p_dir[k] = d == 0 ? math::CrossZeroNegative : d == 1 ? math::CrossZeroPositive : math::CrossZeroEither;
      this->p_term[k] = (int)((h >> 30) % 100) < P.g.in.ip("termpct");
    }
  }
  void p_update(const double &t, T *state) {
    for (int k = 0; k < this->p_size; k++) this->p_current[k] = T(std::real(state[comp[k] - first]) - lev[k]);
  }
  void p_handle(const bool *trig, const double &t, T *state) {
    if (!P.handled) {                                    // the state as the integrator left it
      P.handled = true; P.before.clear();
      for (int i = 0; i < P.g.lay[0][P.g.me]; i++) P.before.push_back(state[i - first]);
    }
    std::vector<int> tr; std::vector<T> v;
    for (int k = 0; k < this->p_size; k++) tr.push_back(trig[k] ? 1 : 0);
    vh::J j = P.g.rec("h"); j.k("ev", id).k("time", t).k("trig", tr); P.g.out.rec(j);
    for (int k = 0; k < this->p_size; k++) if (trig[k]) {
      int c = comp[k], gi = P.lo + c;
      if (act[k] == 0) P.f0[gi] = -P.f0[gi];
      else if (act[k] == 1 && P.m[gi]) state[c - first] += this->p_dir[k] == math::CrossZeroNegative ? T(0.4) : T(-0.4);
      else P.f1[gi] = T(0.0);
    }
  }
};
template <class T> void doDae(Alg<T> &g) {
  typedef math::VectorT<T> Vec; typedef math::MatrixT<T> Mat; typedef math::DAESolverT<T> Solver;
  const vh::NetIn &in = g.in;
  DaeProblem<T> P(g);
  int nl = g.lay[0][g.me];
  utility::Configuration conf;
  utility::Configuration::CursorPtr cur = config(conf, "DAESolver", in.par.at("cfg"), g.comm);
  typename Solver::JacobianBuilder jb = [&](const double &t, const Vec &x, const Vec &d, const double &a, Mat &M) { P.J(t, x, d, a, M); };
  typename Solver::FunctionBuilder fb = [&](const double &t, const Vec &x, const Vec &d, Vec &R) { P.F(t, x, d, R); };
  typename Solver::EventManagerPtr em;
  hook = Hook();
  hook.drive = in.ip("evdrive") != 0 || g.np > 1;        // PETSc 3.19 locates events on several processes unreliably
  if (in.ip("events")) {
    em.reset(new math::DAEEventManagerT<T>());
    int no = 1 + (int)(g.h(30, g.me) % in.ip("events"));
    bool single = !hook.drive;                           // one value in all, left to PETSc
    if (single) no = g.me == (int)(g.h(33, 0) % g.np) ? 1 : 0;
    else if (g.h(34, g.me) % 5 == 0) no = 0;
    for (int o = 0; o < no; o++) {
      int nv = single ? 1 : 1 + (int)(g.h(31, g.me, o) % 3), base = (int)(g.h(32, g.me, o) % nl);
      boost::shared_ptr<math::DAEEventT<T> > e(new DaeEvent<T>(P, o, nv, base, nl));
      DaeEvent<T> *d = static_cast<DaeEvent<T> *>(e.get());
      std::vector<int> dir, term; for (auto q : d->dirs()) dir.push_back((int)q); for (bool q : d->termFlags()) term.push_back(q);
      vh::J j = g.rec("event"); j.k("ev", o).k("comp", d->comp).k("act", d->act).k("level", d->lev).k("dir", dir).k("term", term); g.out.rec(j);
      em->add(e);
    }
  }
  std::unique_ptr<Mat> J;
  if (in.ip("ownj")) J.reset(new Mat(g.comm, nl, nl, math::Sparse));
  std::unique_ptr<Solver> S;
  if (J) S.reset(new Solver(g.comm, nl, J.get(), jb, fb, em));
  else S.reset(em ? new Solver(g.comm, nl, jb, fb, em) : new Solver(g.comm, nl, jb, fb));
  S->configure(cur);
  Vec x(g.comm, nl);
  auto state = [&](const char *t, double time) {
    std::vector<T> lx = g.local(x);
    vh::J j = g.rec(t); j.k("time", time).raw("x", g.txt(lx)).raw("b", g.txt(P.handled ? P.before : lx));
    std::vector<T> a, b; for (int i : g.mine(0)) { a.push_back(P.f0[i]); b.push_back(P.f1[i]); }
    j.raw("f0", g.txt(a)).raw("f1", g.txt(b));
    g.out.rec(j); P.handled = false;
  };
  typename Solver::StepFunction pre = [&](const double &t) { vh::J j = g.rec("pre"); j.k("time", t); g.out.rec(j); };
  int nstep = 0;
  typename Solver::StepFunction post = [&](const double &t) {
    if (hook.drive && hook.eval && hook.ts) {
      ::Vec U; TSGetSolution(hook.ts, &U);
      int ne = (int)hook.dir.size();
      std::vector<PetscScalar> fv(ne + 1); hook.eval(hook.ts, t, U, &fv[0], hook.ctx);
      std::vector<double> re; std::vector<PetscInt> idx;
      bool any = g.h(35, ++nstep) % 4 == 0;              // the integrator calls on every process
      for (int i = 0; i < ne; i++) { re.push_back(PetscRealPart(fv[i])); if (any && g.h(36, g.me * 100 + i, nstep) % 3 == 0) idx.push_back(i); }
      vh::J j = g.rec("drive"); j.k("time", t).k("dir", hook.dir).k("term", hook.term).k("values", re).k("trig", std::vector<int>(idx.begin(), idx.end())); g.out.rec(j);
      int ni = (int)idx.size(); idx.push_back(-1);
      if (any) hook.post(hook.ts, ni, &idx[0], t, U, PETSC_TRUE, hook.ctx);
    }
    state("post", t);
  };
  if (in.ip("hooks")) S->preStep(pre);
  S->postStep(post);
  // consistent start: differential rows at random, algebraic ones solved by relaxation
  double t = 0.25 * (in.ip("t0") - 2);
  std::vector<T> xs(n0(g)); for (size_t i = 0; i < xs.size(); i++) xs[i] = g.val(50, i);
  for (int it = 0; it < 400; it++) for (size_t i = 0; i < xs.size(); i++) if (!P.m[i]) {
    T f = P.f0[i] + P.f1[i] * T(t), d = T(1.0);
    for (auto &e : P.A[i]) { if (e.first == (int)i) d = e.second; else f += e.second * xs[e.first]; }
    xs[i] = -f / d;
  }
  for (int i : g.mine(0)) x.setElement(i, xs[i]);
  x.ready();
  int nseg = in.ip("segments");
  for (g.step = 0; g.step < nseg; g.step++) {
    S->initialize(t, 1e-3 * in.ip("dt"), x);
    state("start", t);
    double end = t + 0.1 * in.ip("len"); int steps = in.ip("maxsteps");
    double want = end; std::string threw;
    if (in.ip("events")) S->terminated(false);
    try { S->solve(end, steps); } catch (const std::exception &e) { threw = e.what(); if (threw.empty()) threw = "exception"; }
    vh::J j = g.rec("end"); j.k("want", want).k("time", end).k("steps", steps).k("threw", threw).k("terminated", S->terminated()); g.out.rec(j);
    state("final", end);
    if (!threw.empty()) break;
    t = end;
  }
}

int main(int argc, char **argv) {
  if (argc < 4) vh::harnessFail("usage");
  Environment env(argc, argv);
  std::string mode = argv[1];
  gridpack::NoPrint::instance()->setStatus(true);
  vh::quietStdout();
  math::Initialize(&argc, &argv);
  {
    std::vector<vh::CaseIn> cases = vh::readCases(argv[2]);
    vh::Out out(argv[3]);
    parallel::Communicator world;
    for (size_t i = 0; i < cases.size(); i++) {
      const vh::CaseIn &cs = cases[i];
      out.begin(cs.id);
      int K = (int)cs.nets.size();
      int color = cs.ip("style", 0) == 0 ? out.rank % K : out.rank * K / out.size;
      parallel::Communicator comm = world;
      if (K > 1) comm = world.split(color);
      else color = 0;
      const vh::NetIn &in = cs.nets[color];
      try {
        auto doit = [&](auto &a) { if (mode == "alg") a.go(); else if (mode == "lin") doLin(a); else if (mode == "nls") doNls(a); else if (mode == "dae") doDae(a); else vh::harnessFail("mode"); };
        if (in.ip("real")) { Alg<double> a(out, in, cs.id, color, comm); doit(a); }
        else { Alg<ComplexType> a(out, in, cs.id, color, comm); doit(a); }
      } catch (const std::exception &e) { out.viol(cs.id, "exception", e.what()); fflush(out.f); _exit(70); }
      world.barrier();
    }
    out.done();
  }
  return 0;
}
