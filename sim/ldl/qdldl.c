/* LDL' of a symmetric quasi-definite matrix given by its upper triangle (stand-in for QDLDL, written for the simulator).
   Contract as OSQP uses it: etree returns the number of nonzeros of L, -1 for a column without entries or an entry below the
   diagonal, -2 on overflow; factor returns the number of positive pivots, or -1 at the first zero pivot. */
#include "qdldl.h"
#ifdef SIM_LDL_EVENTS
extern void sim_ls_event(const void* handle, int kind, int init, int* fail);
#define EVENT(h, kind, init, fail) sim_ls_event((h), (kind), (init), (fail))
#else
#define EVENT(h, kind, init, fail) (*(fail) = 0)
#endif

QDLDL_int QDLDL_etree(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, QDLDL_int* work, QDLDL_int* Lnz, QDLDL_int* etree) {
  int fail;
  EVENT(etree, 11, 1, &fail);
  if (fail) return -2;
  for (QDLDL_int j = 0; j < n; j++) {
    work[j] = -1; Lnz[j] = 0; etree[j] = -1;
    if (Ap[j] == Ap[j + 1]) return -1;
  }
  for (QDLDL_int j = 0; j < n; j++) {
    work[j] = j;
    for (QDLDL_int p = Ap[j]; p < Ap[j + 1]; p++) {
      QDLDL_int i = Ai[p];
      if (i > j) return -1;
      for (; work[i] != j; i = etree[i]) {
        if (etree[i] < 0) etree[i] = j;
        Lnz[i]++;
        work[i] = j;
      }
    }
  }
  QDLDL_int sum = 0;
  for (QDLDL_int j = 0; j < n; j++) {
    if (sum > QDLDL_INT_MAX - Lnz[j]) return -2;
    sum += Lnz[j];
  }
  return sum;
}

QDLDL_int QDLDL_factor(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, const QDLDL_float* Ax, QDLDL_int* Lp, QDLDL_int* Li,
                       QDLDL_float* Lx, QDLDL_float* D, QDLDL_float* Dinv, const QDLDL_int* Lnz, const QDLDL_int* etree,
                       QDLDL_bool* bwork, QDLDL_int* iwork, QDLDL_float* fwork) {
  QDLDL_int* pattern = iwork;          /* rows of L in row k, in topological order */
  QDLDL_int* chain = iwork + n;
  QDLDL_int* next = iwork + 2 * n;     /* next free slot of each column of L */
  QDLDL_int npos = 0;
  int fail;
  EVENT(Lp, 22, 0, &fail);
  Lp[0] = 0;
  for (QDLDL_int j = 0; j < n; j++) {
    Lp[j + 1] = Lp[j] + Lnz[j];
    next[j] = Lp[j];
    bwork[j] = 0; fwork[j] = 0; D[j] = 0;
  }
  for (QDLDL_int k = 0; k < n; k++) {
    QDLDL_int top = n;
    if (fail && k >= n / 2) return -1;
    for (QDLDL_int p = Ap[k]; p < Ap[k + 1]; p++) {
      QDLDL_int i = Ai[p], len = 0;
      if (i == k) { D[k] = Ax[p]; continue; }
      fwork[i] = Ax[p];
      for (; i >= 0 && i < k && !bwork[i]; i = etree[i]) { chain[len++] = i; bwork[i] = 1; }
      while (len > 0) pattern[--top] = chain[--len];
    }
    for (; top < n; top++) {
      QDLDL_int c = pattern[top];
      QDLDL_float y = fwork[c], l = y * Dinv[c];
      for (QDLDL_int p = Lp[c]; p < next[c]; p++) fwork[Li[p]] -= Lx[p] * y;
      D[k] -= y * l;
      Li[next[c]] = k; Lx[next[c]] = l; next[c]++;
      fwork[c] = 0; bwork[c] = 0;
    }
    if (D[k] == 0.0) { EVENT(Lp, -22, 0, &fail); return -1; }
    if (D[k] > 0.0) npos++;
    Dinv[k] = 1 / D[k];
  }
  return npos;
}

void QDLDL_Lsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x) {
  for (QDLDL_int j = 0; j < n; j++)
    for (QDLDL_int p = Lp[j]; p < Lp[j + 1]; p++) x[Li[p]] -= Lx[p] * x[j];
}
void QDLDL_Ltsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x) {
  for (QDLDL_int j = n - 1; j >= 0; j--)
    for (QDLDL_int p = Lp[j]; p < Lp[j + 1]; p++) x[j] -= Lx[p] * x[Li[p]];
}
void QDLDL_solve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, const QDLDL_float* Dinv, QDLDL_float* x) {
  int fail;
  EVENT(Lp, 33, 0, &fail);
  QDLDL_Lsolve(n, Lp, Li, Lx, x);
  for (QDLDL_int j = 0; j < n; j++) x[j] *= Dinv[j];
  QDLDL_Ltsolve(n, Lp, Li, Lx, x);
}
