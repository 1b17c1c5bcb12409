// Common parts of the verification harness drivers.
//
// A driver is an MPI program: vh_xxx MODE CASEFILE OUTPREFIX.  Every rank reads the
// case file (plain tokens), runs each case against the real GridPACK code and appends
// what it observed, one JSON record per line, to OUTPREFIX.<rank>.  The records are
// judged offline by /verif/oracles/*.py.
#ifndef VH_HPP
#define VH_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <mpi.h>

extern "C" { extern long vh_delays; void vh_pause(); }
namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
/// hash of a tuple, the same function as oracles/common.py:hsh
inline uint64_t hsh(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
  return mix(mix(mix(mix(a) + b) + c) + d);
}
/// a value in [-8,8) with 53 significant bits at most, the same as common.py:hval
inline double hval(uint64_t h) { return (double)(h >> 11) / 562949953421312.0 - 8.0; }
/// a small-integer value in -64..63
inline double hint(uint64_t h) { return (double)((int64_t)(h & 127) - 64); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix(s); }
  int below(int n) { return n > 0 ? (int)(next() % (uint64_t)n) : 0; }
  double uni() { return (double)(next() >> 11) / 9007199254740992.0; }
};

/// JSON text builder
class J {
public:
  std::string s;
  static std::string num(double v) {
    char b[40];
    if (std::isnan(v)) return "NaN";
    if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
    snprintf(b, sizeof b, "%.17g", v);
    return b;
  }
  static std::string str(const std::string &t) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : t) {
      if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += (char)c;
    }
    return r + "\"";
  }
  static std::string v(int x) { return std::to_string(x); }
  static std::string v(long x) { return std::to_string(x); }
  static std::string v(long long x) { return std::to_string(x); }
  static std::string v(unsigned long x) { return std::to_string(x); }
  static std::string v(unsigned int x) { return std::to_string(x); }
  static std::string v(bool x) { return x ? "true" : "false"; }
  static std::string v(double x) { return num(x); }
  static std::string v(float x) { return num(x); }
  static std::string v(const char *x) { return str(x); }
  static std::string v(const std::string &x) { return str(x); }
  static std::string v(const std::complex<double> &x) {
    return "[" + num(x.real()) + "," + num(x.imag()) + "]";
  }
  template <class A, class B> static std::string v(const std::pair<A, B> &p) {
    return "[" + v(p.first) + "," + v(p.second) + "]";
  }
  template <class T> static std::string v(const std::vector<T> &x) {
    std::string r = "[";
    for (size_t i = 0; i < x.size(); i++) { if (i) r += ","; r += v((T)x[i]); }
    return r + "]";
  }
  static std::string v(const J &x) { return x.get(); }
  template <class T> J &k(const char *key, const T &val) {
    s += s.empty() ? "{" : ",";
    s += str(key); s += ":"; s += v(val);
    return *this;
  }
  J &raw(const char *key, const std::string &val) {
    s += s.empty() ? "{" : ",";
    s += str(key); s += ":"; s += val;
    return *this;
  }
  std::string get() const { return s.empty() ? "{}" : s + "}"; }
};

/// Per-rank output, flushed record by record so that a crash leaves the trace behind
class Out {
public:
  FILE *f;
  int rank, size;
  explicit Out(const std::string &prefix) {
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &size);
    f = fopen((prefix + "." + std::to_string(rank)).c_str(), "w");
    if (!f) { fprintf(stderr, "VH-HARNESS cannot open output\n"); MPI_Abort(MPI_COMM_WORLD, 77); }
  }
  ~Out() { if (f) fclose(f); }
  void rec(const J &j) { std::string t = j.get(); t += "\n"; fwrite(t.data(), 1, t.size(), f); fflush(f); }
  void begin(const std::string &id) { J j; j.k("t", "begin").k("case", id); rec(j); }
  void done() { J j; j.k("t", "finished").k("delays", vh_delays); rec(j); }
  void viol(const std::string &cs, const std::string &key, const std::string &msg) {
    J j; j.k("t", "viol").k("case", cs).k("key", key).k("msg", msg); rec(j);
  }
};

/// keep the code under test's chatter out of the way; stderr stays
inline void quietStdout() { if (!getenv("VH_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) {} } }

inline void harnessFail(const char *msg) {
  fprintf(stderr, "VH-HARNESS %s\n", msg);
  fflush(stderr);
  _exit(77);
}
}
#endif
