// C25: least squares solvers hand exactly the given problem to LAPACK and return its solution.
// The LAPACK routines are stand-ins that check their arguments against the LAPACK contract
// and return an arbitrary solution (or failure).
#include <algorithm>
#include <complex>
#include <memory>
#include "util.h"
#include "ddecal/linear_solvers/LLSSolver.h"
using namespace dp3::ddecal;
typedef std::complex<float> C;
static int M, N, R, calls;
static bool normal;
static std::vector<C> A, B, X;  // the problem: A is MxN, B is MxR, X the solution NxR
static int info_result;
static bool eq(C a, C b) {
  if (sym_is_symbolic()) return sym_and(a.real() == b.real(), a.imag() == b.imag());
  return std::abs(a - b) <= 1e-3f * (1 + std::abs(a));
}
static void problem(const C* a, int lda, const C* b, int ldb) {
  sym_assert(lda >= std::max(1, M) && ldb >= std::max(1, std::max(M, N)), "leading dimensions");
  for (int j = 0; j < N; ++j)
    for (int i = 0; i < M; ++i) sym_assert(eq(a[i + j * lda], A[i + j * M]), "matrix handed to the solver");
  for (int j = 0; j < R; ++j)
    for (int i = 0; i < M; ++i) sym_assert(eq(b[i + j * ldb], B[i + j * M]), "right hand side handed to the solver");
}
static void answer(C* b, int ldb) {
  for (int j = 0; j < R; ++j)
    for (int i = 0; i < N; ++i) b[i + j * ldb] = X[i + j * N];
}
static const int kWork = 23;
extern "C" {
void cgels_(char* trans, int* m, int* n, int* nrhs, C* a, int* lda, C* b, int* ldb, C* work, int* lwork, int* info) {
  sym_assert(*trans == 'N', "no transposition");
  sym_assert(*m == M && *n == N && *nrhs == R, "dimensions");
  *info = 0;
  if (*lwork == -1) { work[0] = C(kWork, 0); return; }
  sym_assert(*lwork >= std::min(M, N) + std::max(std::min(M, N), R), "workspace size");
  for (int i = 0; i < *lwork; ++i) work[i] = C(0, 0);
  problem(a, *lda, b, *ldb);
  ++calls;
  *info = info_result;
  if (!info_result) answer(b, *ldb);
}
void cgelss_(int* m, int* n, int* nrhs, C* a, int* lda, C* b, int* ldb, float* s, float* rcond, int* rank, C* work, int* lwork, float* rwork, int* info) {
  sym_assert(*m == M && *n == N && *nrhs == R, "dimensions");
  *info = 0;
  if (*lwork == -1) { work[0] = C(kWork, 0); return; }
  sym_assert(*lwork >= 2 * std::min(M, N) + std::max(std::max(M, N), R), "workspace size");
  for (int i = 0; i < *lwork; ++i) work[i] = C(0, 0);
  for (int i = 0; i < std::min(M, N); ++i) s[i] = 1;
  for (int i = 0; i < 5 * std::min(M, N); ++i) rwork[i] = 0;
  sym_assert(*rcond >= 0 && *rcond < 1e-6f, "no singular value is discarded");
  *rank = 0;
  problem(a, *lda, b, *ldb);
  ++calls;
  *info = info_result;
  if (!info_result) answer(b, *ldb);
}
void cposv_(char* uplo, int* n, int* nrhs, C* a, int* lda, C* b, int* ldb, int* info) {
  sym_assert(*n == N && *nrhs == R, "dimensions");
  sym_assert(*lda >= N && *ldb >= N, "leading dimensions");
  sym_assert(*uplo == 'U' || *uplo == 'L', "triangle");
  for (int j = 0; j < N; ++j)
    for (int i = 0; i < N; ++i)
      if (*uplo == 'U' ? i <= j : i >= j) {
        C w(0, 0);
        for (int k = 0; k < M; ++k) w += std::conj(A[k + i * M]) * A[k + j * M];
        const C g = a[i + j * *lda];
        sym_close(g.real(), w.real(), "normal matrix is A^H A");
        sym_close(g.imag(), w.imag(), "normal matrix is A^H A");
      }
  for (int j = 0; j < R; ++j)
    for (int i = 0; i < N; ++i) {
      C w(0, 0);
      for (int k = 0; k < M; ++k) w += std::conj(A[k + i * M]) * B[k + j * M];
      sym_close(b[i + j * *ldb].real(), w.real(), "normal right hand side is A^H B");
      sym_close(b[i + j * *ldb].imag(), w.imag(), "normal right hand side is A^H B");
    }
  ++calls;
  *info = info_result;
  if (!info_result) answer(b, *ldb);
}
}
static void name() {
  const int k = sym_param(1);
  static const char* kNames[3] = {"svd", "qr", "normalequations"};
  static const LLSSolverType kTypes[3] = {LLSSolverType::SVD, LLSSolverType::QR, LLSSolverType::NORMAL_EQUATIONS};
  std::string s;
  if (k < 0) {
    s = symstr("name", sym_param(2));
  } else {  // a correct name, one character replaced by anything
    s = kNames[k];
    const int at = sym_choose(0, s.size() - 1, "at");
    sym_make(&s[at], 1, "c");
  }
  for (char c : s) sym_assume(c > 0);
  int want = -1;
  for (int i = 0; i < 3; ++i) {
    const std::string n = kNames[i];
    bool ok = n.size() == s.size();
    for (size_t j = 0; ok && j < n.size(); ++j) ok = sym_or(s[j] == n[j], s[j] == n[j] - 32);
    if (ok) want = i;
  }
  bool threw = false;
  LLSSolverType t = LLSSolverType::SVD;
  try {
    t = LLSSolver::ParseType(s);
  } catch (std::runtime_error&) {
    threw = true;
  }
  sym_assert(threw == (want < 0), "accepted exactly when it names a solver");
  if (!threw) sym_assert(t == kTypes[want], "the named solver");
  sym_reach(threw ? "unknown" : "named");
}
// params: type, m, n, nrhs, calls, with initial value
static void solve() {
  static const LLSSolverType kTypes[3] = {LLSSolverType::SVD, LLSSolverType::QR, LLSSolverType::NORMAL_EQUATIONS};
  const int type = sym_param(1);
  M = sym_param(2);
  N = sym_param(3);
  R = sym_param(4);
  normal = type == 2;
  std::unique_ptr<LLSSolver> s = LLSSolver::Make(kTypes[type], M, N, R);
  sym_assert(s != nullptr, "solver is made");
  const int ld = std::max(M, N);
  for (int k = 0; k < sym_param(5); ++k) {
    A.resize(M * N);
    for (C& x : A) x = C(sym_f32("a"), sym_f32("a"));
    B.resize(M * R);
    for (C& x : B) x = C(sym_f32("b"), sym_f32("b"));
    X.resize(N * R);
    for (C& x : X) x = C(sym_f32("x"), sym_f32("x"));
    info_result = sym_choose(0, 1, "info");
    std::vector<C> a(A), b(ld * R), x0(N * R);
    for (int j = 0; j < R; ++j)
      for (int i = 0; i < M; ++i) b[i + j * ld] = B[i + j * M];
    const int before = calls;
    const bool ok = sym_param(6) ? s->Solve(a.data(), b.data(), x0.data()) : s->Solve(a.data(), b.data());
    if (type == 1 && M < N) {
      sym_assert(!ok, "an underdetermined problem fails with QR");
      sym_reach("under");
      continue;
    }
    sym_assert(calls == before + 1, "solved once");
    sym_assert(ok == (info_result == 0), "success is what LAPACK reports");
    if (!ok) { sym_reach("failed"); continue; }
    for (int j = 0; j < R; ++j)
      for (int i = 0; i < N; ++i) sym_assert(eq(b[i + j * ld], X[i + j * N]), "solution column");
    sym_reach("solved");
  }
}
extern "C" void harness() {
  if (sym_param(0)) solve();
  else name();
}
