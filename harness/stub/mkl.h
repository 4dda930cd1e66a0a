// Stand-in for the LAPACK entry points the code calls: dense Jacobi eigen-decomposition.
#ifndef STUB_MKL_H
#define STUB_MKL_H
#include <algorithm>
#include <cmath>
#include <complex>
#include <numeric>
#include <vector>
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
typedef int lapack_int;
#define MKL_INT int
typedef struct { double real, imag; } MKL_Complex16;
#define lapack_complex_double std::complex<double>
inline void mkl_free_buffers() {}
namespace stub_lapack {
// symmetric matrix a (row major), eigenvalues ascending in w, eigenvectors as columns of z
inline void sym(int n, std::vector<double> a, std::vector<double> &w, std::vector<double> &z) {
  z.assign(n * n, 0); for (int i = 0; i < n; ++i) z[i * n + i] = 1;
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, tot = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { tot += a[i * n + j] * a[i * n + j]; if (i != j) off += a[i * n + j] * a[i * n + j]; }
    if (off <= 1e-32 * tot || off == 0) break;
    for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
      double x = a[p * n + q]; if (x == 0) continue;
      double th = (a[q * n + q] - a[p * n + p]) / (2 * x), t = (th >= 0 ? 1.0 : -1.0) / (std::abs(th) + std::sqrt(th * th + 1));
      double c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; ++k) { double u = a[k * n + p], v = a[k * n + q]; a[k * n + p] = c * u - s * v; a[k * n + q] = s * u + c * v; }
      for (int k = 0; k < n; ++k) { double u = a[p * n + k], v = a[q * n + k]; a[p * n + k] = c * u - s * v; a[q * n + k] = s * u + c * v; }
      for (int k = 0; k < n; ++k) { double u = z[k * n + p], v = z[k * n + q]; z[k * n + p] = c * u - s * v; z[k * n + q] = s * u + c * v; }
    }
  }
  std::vector<int> o(n); std::iota(o.begin(), o.end(), 0);
  std::sort(o.begin(), o.end(), [&](int i, int j) { return a[i * n + i] < a[j * n + j]; });
  std::vector<double> zz(n * n); w.resize(n);
  for (int k = 0; k < n; ++k) { w[k] = a[o[k] * n + o[k]]; for (int i = 0; i < n; ++i) zz[i * n + k] = z[i * n + o[k]]; }
  z = zz;
}
}
inline lapack_int LAPACKE_dstev(int layout, char jobz, lapack_int n, double *d, double *e, double *z, lapack_int ldz) {
  std::vector<double> a(n * n, 0), w, v;
  for (int i = 0; i < n; ++i) { a[i * n + i] = d[i]; if (i + 1 < n) a[i * n + i + 1] = a[(i + 1) * n + i] = e[i]; }
  stub_lapack::sym(n, a, w, v);
  for (int i = 0; i < n; ++i) d[i] = w[i];
  if (jobz == 'V') for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) (layout == LAPACK_ROW_MAJOR ? z[i * ldz + k] : z[k * ldz + i]) = v[i * n + k];
  return 0;
}
inline lapack_int LAPACKE_dsyev(int layout, char jobz, char uplo, lapack_int n, double *a, lapack_int lda, double *w) {
  std::vector<double> m(n * n), ww, v;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool up = (uplo == 'U') == (j >= i); m[i * n + j] = (up || i == j) ? a[i * lda + j] : a[j * lda + i]; }
  stub_lapack::sym(n, m, ww, v);
  for (int i = 0; i < n; ++i) w[i] = ww[i];
  if (jobz == 'V') for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) a[i * lda + k] = v[i * n + k];
  return 0;
}
template <typename Z>
inline lapack_int LAPACKE_zheev(int layout, char jobz, char uplo, lapack_int n, Z *za, lapack_int lda, double *w) {
  auto a = reinterpret_cast<std::complex<double> *>(za);  // eigenvalues only, through the real symmetric double
  std::vector<double> m(4 * n * n), ww, v;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    bool up = (uplo == 'U') == (j >= i);
    std::complex<double> x = (up || i == j) ? a[i * lda + j] : std::conj(a[j * lda + i]);
    m[i * 2 * n + j] = x.real(); m[(i + n) * 2 * n + j + n] = x.real(); m[(i + n) * 2 * n + j] = x.imag(); m[i * 2 * n + j + n] = -x.imag();
  }
  stub_lapack::sym(2 * n, m, ww, v);
  for (int i = 0; i < n; ++i) w[i] = ww[2 * i];
  return 0;
}
#endif
