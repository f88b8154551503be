/* A plain C program's view of the C interface: everything goes through qpOASES_wrapper.h as a C compiler sees it. */
#include <string.h>
#include <stdlib.h>
#include "qpOASES_wrapper.h"
long shim_setup(char cls, long n, long m, long ht) { return cls == 'B' ? QProblemB_setup(n, ht) : cls == 'Q' ? QProblem_setup(n, m, ht) : SQProblem_setup(n, m, ht); }
long shim_cleanup(char cls) { return cls == 'B' ? QProblemB_cleanup() : cls == 'Q' ? QProblem_cleanup() : SQProblem_cleanup(); }
long shim_init(char cls, const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lA, const double* uA, long* nwsr, double* cpu, const void* opt, double* x, double* y, double* obj, long* st) {
  int_t nw = *nwsr, s = *st; long r;
  if (cls == 'B') r = QProblemB_init(H, g, lb, ub, &nw, cpu, (const qpOASES_Options*)opt, x, y, obj, &s);
  else if (cls == 'Q') r = QProblem_init(H, g, A, lb, ub, lA, uA, &nw, cpu, (const qpOASES_Options*)opt, x, y, obj, &s);
  else r = SQProblem_init(H, g, A, lb, ub, lA, uA, &nw, cpu, (const qpOASES_Options*)opt, x, y, obj, &s);
  *nwsr = nw; *st = s; return r; }
long shim_hot(char cls, const double* H, const double* g, const double* A, const double* lb, const double* ub, const double* lA, const double* uA, long* nwsr, double* cpu, double* x, double* y, double* obj, long* st) {
  int_t nw = *nwsr, s = *st; long r;
  if (cls == 'B') r = QProblemB_hotstart(g, lb, ub, &nw, cpu, x, y, obj, &s);
  else if (cls == 'Q') r = QProblem_hotstart(g, lb, ub, lA, uA, &nw, cpu, x, y, obj, &s);
  else r = SQProblem_hotstart(H, g, A, lb, ub, lA, uA, &nw, cpu, x, y, obj, &s);
  *nwsr = nw; *st = s; return r; }
long shim_out(double* x, double* y, double* obj, long* st) { int_t s = *st; long r = qpOASES_obtainOutputs(0, 0, x, y, obj, &s); *st = s; return r; }
void* shim_opt(void) { void* p = malloc(sizeof(qpOASES_Options)); memset(p, 0x5a, sizeof(qpOASES_Options)); return p; }
long shim_opt_init(void* o, long mode) { return qpOASES_Options_init((qpOASES_Options*)o, mode); }
long shim_opt_copy(const void* o, void* to) { return qpOASES_Options_copy((const qpOASES_Options*)o, (OptionsClass*)to); }
#define FIELDS(X) X(printLevel) X(enableRamping) X(enableFarBounds) X(enableFlippingBounds) X(enableRegularisation) X(enableFullLITests) X(enableNZCTests) X(enableDriftCorrection) X(enableCholeskyRefactorisation) X(enableEqualities) \
  X(terminationTolerance) X(boundTolerance) X(boundRelaxation) X(epsNum) X(epsDen) X(maxPrimalJump) X(maxDualJump) X(initialRamping) X(finalRamping) X(initialFarBounds) X(growFarBounds) X(initialStatusBounds) X(epsFlipping) \
  X(numRegularisationSteps) X(epsRegularisation) X(numRefinementSteps) X(epsIterRef) X(epsLITests) X(epsNZCTests) X(rcondSMin) X(enableInertiaCorrection) X(enableDropInfeasibles) X(dropBoundPriority) X(dropEqConPriority) X(dropIneqConPriority)
int shim_opt_set(void* o, const char* f, double v) {
#define X(g) if (strcmp(f, #g) == 0) { ((qpOASES_Options*)o)->g = v; return 1; }
  FIELDS(X)
#undef X
  return 0; }
double shim_opt_get(const void* o, const char* f) {
#define X(g) if (strcmp(f, #g) == 0) return ((const qpOASES_Options*)o)->g;
  FIELDS(X)
#undef X
  return 5.5e55; }
/* constants of the header */
long shim_const(const char* f) {
#define X(g) if (strcmp(f, #g) == 0) return g;
  X(HST_ZERO) X(HST_IDENTITY) X(HST_POSDEF) X(HST_POSDEF_NULLSPACE) X(HST_SEMIDEF) X(HST_INDEF) X(HST_UNKNOWN) X(ST_LOWER) X(ST_INACTIVE) X(ST_UPPER) X(ST_INFEASIBLE_LOWER) X(ST_INFEASIBLE_UPPER) X(ST_UNDEFINED) X(PL_DEBUG_ITER) X(PL_TABULAR) X(PL_NONE) X(PL_LOW) X(PL_MEDIUM) X(PL_HIGH)
#undef X
  return -999; }
