// Schedule perturbation: calls into the array and message libraries made by the code under
// test are preceded (and sometimes followed) by random pauses, so that ranks meet in orders
// an idle machine never shows.  VH_DELAY="permille maxus seed slowrank"
#include <mpi.h>
#include <ga.h>
#include <cstdlib>
#include <cstdio>
#include <cstdint>
#include <unistd.h>

extern "C" long vh_delays = 0;
namespace {
struct D {
  int permille = 0, maxus = 0, slow = -1, rank = 0; uint64_t s = 1; bool init = false;
  void setup() {
    init = true;
    const char *e = getenv("VH_DELAY"), *r = getenv("OMPI_COMM_WORLD_RANK");
    rank = r ? atoi(r) : 0;
    unsigned long seed = 1;
    if (e) sscanf(e, "%d %d %lu %d", &permille, &maxus, &seed, &slow);
    s = seed * 0x9E3779B97F4A7C15ULL + (uint64_t)rank * 0xD1B54A32D192ED03ULL + 7;
  }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  void hit() {
    if (!init) setup();
    if (permille <= 0) return;
    int p = permille;
    if (slow >= 0) p = rank == slow ? 700 : permille / 8;
    if ((int)(next() % 1000) < p) { vh_delays++; usleep(1 + next() % (uint64_t)(maxus > 0 ? maxus : 1)); }
  }
} d;
}
extern "C" void vh_pause() { d.hit(); }
extern "C" {
#define W_VOID(name, args, call) void __real_##name args; void __wrap_##name args { d.hit(); __real_##name call; }
#define W_RET(type, name, args, call) type __real_##name args; type __wrap_##name args { d.hit(); type r = __real_##name call; d.hit(); return r; }
W_VOID(NGA_Put, (int g, int lo[], int hi[], void *b, int ld[]), (g, lo, hi, b, ld))
W_VOID(NGA_Get, (int g, int lo[], int hi[], void *b, int ld[]), (g, lo, hi, b, ld))
W_VOID(NGA_Scatter, (int g, void *v, int *s[], int n), (g, v, s, n))
W_VOID(NGA_Gather, (int g, void *v, int *s[], int n), (g, v, s, n))
W_VOID(NGA_Scatter_acc, (int g, void *v, int *s[], int n, void *a), (g, v, s, n, a))
W_VOID(NGA_Access, (int g, int lo[], int hi[], void *p, int ld[]), (g, lo, hi, p, ld))
W_VOID(NGA_Distribution, (int g, int p, int lo[], int hi[]), (g, p, lo, hi))
W_VOID(GA_Pgroup_sync, (int g), (g))
W_RET(long, NGA_Read_inc, (int g, int s[], long inc), (g, s, inc))
W_RET(int, GA_Allocate, (int g), (g))
W_VOID(GA_Pgroup_igop, (int g, int x[], int n, char *op), (g, x, n, op))
W_RET(int, MPI_Allreduce, (const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (a, b, n, t, o, c))
W_RET(int, MPI_Barrier, (MPI_Comm c), (c))
}
