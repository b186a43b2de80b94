// Stand-ins for PyNE's decay data and solver, which this tree does not contain
// (they are downloaded by the project's CMake): Cs-137 -> Ba-137, everything else stable.
#ifndef DECAYSTUB_H_
#define DECAYSTUB_H_
#include <cmath>
#include <map>
namespace decaystub {
static const int N = 9;
static int NUC[N] = {10010000, 80160000, 551370000, 561370000, 922350000, 922360000, 922380000, 942390000, 952410000};
static double L[N] = {0, 0, 7.302e-10, 0, 0, 0, 0, 0, 0};
static const double kLambda = 7.302e-10;
static int IJ[N] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
static long solves = 0;
}
struct pyne_cram_transmute_info_tag2 { int n; int nnz; int* i; int* j; char** nucs; int* nucids; double* decay_matrix; };
extern "C" {
pyne_cram_transmute_info_tag2 pyne_cram_transmute_info = {decaystub::N, decaystub::N, decaystub::IJ, decaystub::IJ, 0, decaystub::NUC, decaystub::L};
int pyne_cram_transmute_ij(int i, int j) { return i == j ? i : -1; }
int pyne_cram_transmute_nucid_to_i(int nuc) { for (int i = 0; i < decaystub::N; i++) if (decaystub::NUC[i] == nuc) return i; return -1; }
void pyne_cram_expm_multiply14(double* A, double* b, double* x) {
  decaystub::solves++;
  for (int i = 0; i < decaystub::N; i++) x[i] = b[i];
  double d = b[2] * (1 - std::exp(A[2]));
  x[2] -= d;
  x[3] += d;
}
}
namespace pyne { double decay_const(int nuc) { return nuc == 551370000 ? decaystub::kLambda : 0; } }
#endif
