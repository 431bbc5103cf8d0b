// Driver for generated C++ (C12).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
#define WF_SPAN_EIGEN_SUPPORT
#include <wrenfold/span.h>
#include <Eigen/Core>

static const double SENT = -98765.4375;  // not the value of any output
struct Point {
  double x, y;
};
struct Inner {
  Eigen::Matrix<double, 2, 3> m;
  std::int64_t k;
  double a;
};
struct Outer {
  double b;
  Inner q;
  Eigen::Matrix<double, 3, 1> v;
  Point p;
  std::int64_t n;
};
inline void ld(double& v, const double* in) { v = *in; }
inline void ld(std::int64_t& v, const double* in) { v = static_cast<std::int64_t>(*in); }
template <int R, int C>
void ld(Eigen::Matrix<double, R, C>& m, const double* in) {
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < C; ++j) m(i, j) = in[i * C + j];
}
inline void ld(Point& p, const double* in) { ld(p.x, in), ld(p.y, in + 1); }
inline void ld(Inner& p, const double* in) { ld(p.m, in), ld(p.k, in + 6), ld(p.a, in + 7); }
inline void ld(Outer& p, const double* in) { ld(p.b, in), ld(p.q, in + 1), ld(p.v, in + 9), ld(p.p, in + 12), ld(p.n, in + 14); }
inline void st(double v, double* o) { *o = v; }
inline void st(std::int64_t v, double* o) { *o = static_cast<double>(v); }
template <int R, int C>
void st(const Eigen::Matrix<double, R, C>& m, double* o) {
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < C; ++j) o[i * C + j] = m(i, j);
}
inline void st(const Point& p, double* o) { st(p.x, o), st(p.y, o + 1); }
inline void st(const Inner& p, double* o) { st(p.m, o), st(p.k, o + 6), st(p.a, o + 7); }
inline void st(const Outer& p, double* o) { st(p.b, o), st(p.q, o + 1), st(p.v, o + 9), st(p.p, o + 12), st(p.n, o + 14); }
inline void sentinel(double& v) { v = SENT; }
inline void sentinel(std::int64_t& v) { v = -98765; }
template <int R, int C>
void sentinel(Eigen::Matrix<double, R, C>& m) { m.setConstant(SENT); }
inline void sentinel(Point& p) { p = {SENT, SENT}; }
inline void sentinel(Inner& p) { sentinel(p.m), sentinel(p.k), sentinel(p.a); }
inline void sentinel(Outer& p) { sentinel(p.b), sentinel(p.q), sentinel(p.v), sentinel(p.p), sentinel(p.n); }

// External functions: the formula of external_value() in funcs.h.
constexpr int name_hash(const char* n) {
  std::uint64_t h = 1469598103934665603ull;
  for (; *n; ++n) h = (h ^ static_cast<unsigned char>(*n)) * 1099511628211ull;
  return static_cast<int>(h % 7);
}
inline double ext(int s, std::size_t idx, const double* a, std::size_t n) {
  double r = 0.25 * static_cast<double>(idx) - 1;
  for (std::size_t k = 0; k < n; ++k) r += (static_cast<double>(static_cast<int>((k * 5 + idx * 3 + static_cast<std::size_t>(s)) % 9) - 4) + 0.5) * a[k];
  if (n) r += 0.125 * (a[0] * a[n - 1]);
  return r;
}
namespace gen {
inline double e1(double a, double b) {
  const double v[] = {a, b};
  return ext(name_hash("e1"), 0, v, 2);
}
inline std::int64_t ei(double a, double) { return static_cast<std::int64_t>(3 * std::floor(a) + 1); }
inline Eigen::Matrix<double, 3, 2> em(const Eigen::Matrix<double, 2, 3>& m, double s) {
  double v[7];
  st(m, v);
  v[6] = s;
  Eigen::Matrix<double, 3, 2> r;
  for (int i = 0; i < 6; ++i) r(i / 2, i % 2) = ext(name_hash("em"), static_cast<std::size_t>(i), v, 7);
  return r;
}
inline Inner et(double s, const Point& p, const Eigen::Matrix<double, 3, 1>& w) {
  const double v[6] = {s, p.x, p.y, w(0), w(1), w(2)};
  double o[8];
  for (std::size_t i = 0; i < 8; ++i) o[i] = ext(name_hash("et"), i, v, 6);
  o[6] = 8;
  Inner r;
  ld(r, o);
  return r;
}
inline Point ep(const Inner& q) {
  double v[8], o[2];
  st(q, v);
  for (std::size_t i = 0; i < 2; ++i) o[i] = ext(name_hash("ep"), i, v, 8);
  Point r;
  ld(r, o);
  return r;
}
}  // namespace gen

struct Entry {
  const char* id;
  void (*f)(const double*, double*, unsigned);
  const int* opt;
  unsigned nin, nout, nmasks, np;
  std::size_t off;
};
inline int drive(const Entry* e, std::size_t n, int argc, char** argv) {
  if (argc < 2) return 2;
  FILE* fp = std::fopen(argv[1], "rb");
  std::vector<double> data;
  double buf[512];
  for (std::size_t k; (k = std::fread(buf, sizeof(double), 512, fp)) > 0;) data.insert(data.end(), buf, buf + k);
  std::fclose(fp);
  unsigned long long calls = 0, values = 0;
  std::vector<double> out;
  for (std::size_t i = 0; i < n; ++i) {
    const double* d = data.data() + e[i].off;
    bool failed = false;
    for (unsigned p = 0; p < e[i].np; ++p, d += e[i].nin + 2 * e[i].nout)
      for (unsigned m = 0; m < e[i].nmasks; ++m) {
        out.assign(e[i].nout, SENT);
        e[i].f(d, out.data(), m);
        ++calls;
        for (unsigned k = 0; k < e[i].nout && !failed; ++k) {
          const double want = d[e[i].nin + 2 * k], tol = d[e[i].nin + 2 * k + 1], got = out[k];
          const int o = e[i].opt[k];
          const bool wanted = o < 0 || (m >> o & 1);
          if (!wanted) {
            if (got != SENT && got != -98765) failed = true;
          } else {
            if (tol < 0) continue;
            ++values;
            if (!(std::abs(got - want) <= tol)) failed = true;
          }
          if (failed) {
            std::printf("FAIL %s mask %u element %u expected %.17g got %.17g at", e[i].id, m, k, want, got);
            for (unsigned q = 0; q < e[i].nin; ++q) std::printf(" %.17g", d[q]);
            std::printf("\n");
          }
        }
      }
  }
  std::printf("DONE %llu %llu\n", calls, values);
  return 0;
}
