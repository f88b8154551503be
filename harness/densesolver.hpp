// Stand-in for the sparse linear solver that SQProblemSchur needs (MA27/MA57 are not available offline):
// exact-arithmetic-free dense symmetric solver with rank, inertia and zero pivots.
#pragma once
#include <qpOASES.hpp>
#include <cmath>
#include <vector>
#include <algorithm>
#include <qpOASES/LapackBlasReplacement.hpp>
// the triangular LAPACK routines that the bundled replacement does not contain (definitions here come first when linking)
extern "C" void DTRTRS(const char* UPLO, const char* TRANS, const char* DIAG, const la_uint_t* N, const la_uint_t* NRHS, double* A, const la_uint_t* LDA, double* B, const la_uint_t* LDB, la_int_t* INFO) {
  long n = (long)*N, ld = (long)*LDA; *INFO = 0; if (*UPLO != 'U' || *TRANS != 'N' || *DIAG != 'N') { *INFO = -1; return; }
  for (long i = 0; i < n; ++i) if (A[i + i * ld] == 0.0) { *INFO = i + 1; return; }
  for (long k = 0; k < (long)*NRHS; ++k) for (long i = n; i-- > 0;) { double s = B[i + k * (long)*LDB]; for (long j = i + 1; j < n; ++j) s -= A[i + j * ld] * B[j + k * (long)*LDB]; B[i + k * (long)*LDB] = s / A[i + i * ld]; } }
extern "C" void DTRCON(const char* NORM, const char* UPLO, const char* DIAG, const la_uint_t* N, double* A, const la_uint_t* LDA, double* RCOND, double*, const la_uint_t*, la_int_t* INFO) {
  long n = (long)*N, ld = (long)*LDA; *INFO = 0; *RCOND = 1.0; if (n == 0) return; if (*UPLO != 'U' || *DIAG != 'N' || (*NORM != '1' && *NORM != 'O')) { *INFO = -1; return; }
  double an = 0, in = 0; std::vector<double> v(n);
  for (long j = 0; j < n; ++j) { double s = 0; for (long i = 0; i <= j; ++i) s += std::fabs(A[i + j * ld]); an = std::max(an, s); }
  for (long i = 0; i < n; ++i) if (A[i + i * ld] == 0.0) { *RCOND = 0.0; return; }
  for (long c = 0; c < n; ++c) { double s = 0; for (long i = n; i-- > 0;) { double r = i == c ? 1.0 : 0.0; for (long j = i + 1; j < n; ++j) r -= A[i + j * ld] * v[j]; v[i] = r / A[i + i * ld]; s += std::fabs(v[i]); } in = std::max(in, s); }
  *RCOND = 1.0 / an / in; }
class DenseLinSolver : public qpOASES::SparseSolver {
  typedef qpOASES::int_t I; typedef qpOASES::real_t Rl;
  I dim = 0; std::vector<double> M, L; std::vector<I> rp, cp; I rank = 0, neg = 0; bool have = false; std::vector<I> zp;
public:
  qpOASES::returnValue setMatrixData(I d, I nnz, const I* const ir, const I* const jc, const Rl* const v) override {
    dim = d; M.assign(d * d, 0.0); have = false;
    for (I k = 0; k < nnz; ++k) { I i = ir[k] - 1, j = jc[k] - 1; if (i < 0 || j < 0 || i >= d || j >= d) return qpOASES::RET_INVALID_ARGUMENTS;
      M[i * d + j] += v[k]; if (i != j) M[j * d + i] += v[k]; }
    return qpOASES::SUCCESSFUL_RETURN; }
  qpOASES::returnValue factorize() override {
    I d = dim; L = M; rp.resize(d); cp.resize(d); for (I i = 0; i < d; ++i) rp[i] = cp[i] = i;
    double mx = 0; for (double x : M) mx = std::max(mx, std::fabs(x));
    rank = d; zp.clear();
    for (I k = 0; k < d; ++k) {
      I pi = k, pj = k; double best = -1;
      for (I i = k; i < d; ++i) for (I j = k; j < d; ++j) { double a = std::fabs(L[i * d + j]); if (a > best * 1.0000001) { best = a; pi = i; pj = j; } }
      if (best <= 1e-11 * std::max(1.0, mx)) { rank = k; break; }
      if (pi != k) { for (I j = 0; j < d; ++j) std::swap(L[pi * d + j], L[k * d + j]); std::swap(rp[pi], rp[k]); }
      if (pj != k) { for (I i = 0; i < d; ++i) std::swap(L[i * d + pj], L[i * d + k]); std::swap(cp[pj], cp[k]); }
      for (I i = k + 1; i < d; ++i) { double f = L[i * d + k] /= L[k * d + k]; if (f != 0) for (I j = k + 1; j < d; ++j) L[i * d + j] -= f * L[k * d + j]; }
    }
    // inertia by Jacobi eigenvalues
    std::vector<double> A = M; for (int sweep = 0; sweep < 60; ++sweep) { double off = 0; for (I i = 0; i < d; ++i) for (I j = 0; j < i; ++j) off += A[i * d + j] * A[i * d + j];
      if (off < 1e-26 * std::max(1.0, mx * mx)) break;
      for (I p = 0; p < d; ++p) for (I q = p + 1; q < d; ++q) { double apq = A[p * d + q]; if (std::fabs(apq) < 1e-300) continue;
        double th = (A[q * d + q] - A[p * d + p]) / (2 * apq), t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (I k = 0; k < d; ++k) { double x = A[k * d + p], y = A[k * d + q]; A[k * d + p] = c * x - s * y; A[k * d + q] = s * x + c * y; }
        for (I k = 0; k < d; ++k) { double x = A[p * d + k], y = A[q * d + k]; A[p * d + k] = c * x - s * y; A[q * d + k] = s * x + c * y; } } }
    neg = 0; for (I i = 0; i < d; ++i) if (A[i * d + i] < -1e-11 * std::max(1.0, mx)) ++neg;
    if (rank < d) { // prefer the highest-index dependent columns: independent columns greedily from the left
      std::vector<I> ind; std::vector<std::vector<double>> basis; zp.clear();
      for (I j = 0; j < d; ++j) { std::vector<double> v(d); for (I i = 0; i < d; ++i) v[i] = M[i * d + j];
        double n0 = 0; for (double x : v) n0 += x * x; for (int r = 0; r < 2; ++r) for (auto& b : basis) { double s = 0; for (I i = 0; i < d; ++i) s += b[i] * v[i]; for (I i = 0; i < d; ++i) v[i] -= s * b[i]; }
        double n1 = 0; for (double x : v) n1 += x * x; if (n1 <= 1e-18 * std::max(1.0, n0)) zp.push_back(j); else { n1 = std::sqrt(n1); for (double& x : v) x /= n1; basis.push_back(v); } }
      rank = d - (I)zp.size();
      return qpOASES::RET_KKT_MATRIX_SINGULAR; }
    have = true; return qpOASES::SUCCESSFUL_RETURN; }
  qpOASES::returnValue solve(I d, const Rl* const rhs, Rl* const sol) override {
    if (d != dim) return qpOASES::RET_INVALID_ARGUMENTS; if (d == 0) return qpOASES::SUCCESSFUL_RETURN; if (!have) return qpOASES::RET_INVALID_ARGUMENTS;
    std::vector<double> y(d), s(d, 0.0), r(rhs, rhs + d);
    for (int it = 0; it < 2; ++it) {
      for (I i = 0; i < d; ++i) { y[i] = r[rp[i]]; for (I j = 0; j < i; ++j) y[i] -= L[i * d + j] * y[j]; }
      for (I i = d; i-- > 0;) { for (I j = i + 1; j < d; ++j) y[i] -= L[i * d + j] * y[j]; y[i] /= L[i * d + i]; }
      for (I i = 0; i < d; ++i) s[cp[i]] += y[i];
      for (I i = 0; i < d; ++i) { r[i] = rhs[i]; for (I j = 0; j < d; ++j) r[i] -= M[i * d + j] * s[j]; } }
    for (I i = 0; i < d; ++i) sol[i] = s[i]; return qpOASES::SUCCESSFUL_RETURN; }
  qpOASES::returnValue reset() override { qpOASES::SparseSolver::reset(); have = false; dim = 0; return qpOASES::SUCCESSFUL_RETURN; }
  DenseLinSolver& operator=(const qpOASES::SparseSolver& o) override { if (const DenseLinSolver* d = dynamic_cast<const DenseLinSolver*>(&o)) if (d != this) { dim = d->dim; M = d->M; L = d->L; rp = d->rp; cp = d->cp; rank = d->rank; neg = d->neg; have = d->have; zp = d->zp; } return *this; }
  I getNegativeEigenvalues() override { return neg; }
  I getRank() override { return rank; }
  qpOASES::returnValue getZeroPivots(I*& z) override { for (size_t k = 0; k < zp.size(); ++k) z[k] = zp[k]; return qpOASES::SUCCESSFUL_RETURN; }
};
class SchurWithSolver : public qpOASES::SQProblemSchur {
public:
  SchurWithSolver(qpOASES::int_t n, qpOASES::int_t m, qpOASES::HessianType ht, int k) : qpOASES::SQProblemSchur(n, m, ht, k) { delete sparseSolver; sparseSolver = new DenseLinSolver(); }
  SchurWithSolver(const SchurWithSolver& o) : qpOASES::SQProblemSchur(o) { delete sparseSolver; DenseLinSolver* d = new DenseLinSolver(); *d = *o.sparseSolver; sparseSolver = d; }
  SchurWithSolver& operator=(const SchurWithSolver& o) { qpOASES::SQProblemSchur::operator=(o); return *this; }
};
