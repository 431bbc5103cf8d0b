// Reference semantics of wrenfold expressions: a boring evaluator over the complex numbers with a
// running error bound.  It is written against the public expression tree only (node kinds and
// their children), never against the simplification rules under test.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <vector>

#include "wf/any_expression.h"
#include "wf/compound_expression.h"
#include "wf/constants.h"
#include "wf/expression.h"
#include "wf/expression_visitor.h"
#include "wf/expressions/all_expressions.h"
#include "wf/functions.h"
#include "wf/number_set.h"
#include "wf/matrix_expression.h"

namespace ref {
using wf::scalar_expr;
using C = std::complex<double>;

// OK    : the value is v, |true - v| <= err (approximately; err == 0 means exact)
// UNDEF : mathematically undefined
// POLE  : (complex) infinity
// HUGE_ : either infinite or too large to say (close to a pole)
// NOISE : this evaluator cannot decide (close to a branch cut / discontinuity, overflow, unsupported)
enum St : uint8_t { OK = 0, UNDEF, POLE, HUGE_, NOISE };

constexpr double EPS = 1e-15;
constexpr double K = 200.0;

struct V {
  C v{0, 0};
  double err{0};
  St st{OK};
  // Value of (non-negative base)**(non-real exponent).  wrenfold takes exponents over a base that is
  // declared non-negative as real when it merges powers, so a further fractional power is undecided.
  bool amb{false};
  static V ok(C c, double e = 0) {
    if (!std::isfinite(c.real()) || !std::isfinite(c.imag()) || !std::isfinite(e)) return bad(NOISE);
    if (std::abs(c.real()) > 1e100 || std::abs(c.imag()) > 1e100) return bad(NOISE);
    C n{c.real() == 0 ? 0.0 : c.real(), c.imag() == 0 ? 0.0 : c.imag()};  // no negative zeros
    return V{n, e, OK, false};
  }
  static V bad(St s) { return V{{0, 0}, 0, s, false}; }
  bool is_ok() const { return st == OK; }
  bool real() const { return v.imag() == 0; }
  bool exact() const { return err == 0; }
  bool zero() const { return err == 0 && v == C{0, 0}; }
  bool maybe_zero() const { return std::abs(v) <= K * err; }
};

inline bool worse(const V& a, const V& b, V& out) {
  if (a.st == NOISE || b.st == NOISE || a.st == HUGE_ || b.st == HUGE_) {
    out = V::bad(NOISE);
    return true;
  }
  if (a.st == UNDEF || b.st == UNDEF) {
    out = V::bad(UNDEF);
    return true;
  }
  return false;
}

inline V from_ld(std::complex<long double> z, double err_in) {
  C d{static_cast<double>(z.real()), static_cast<double>(z.imag())};
  const bool same = static_cast<long double>(d.real()) == z.real() &&
                    static_cast<long double>(d.imag()) == z.imag() && std::abs(d.real()) < 1e13 &&
                    std::abs(d.imag()) < 1e13;
  return V::ok(d, err_in + (same ? 0.0 : EPS * std::abs(d)));
}
inline std::complex<long double> ld(const C& c) { return {c.real(), c.imag()}; }

inline V add(const V& a, const V& b) {
  V o;
  if (worse(a, b, o)) return o;
  if (a.st == POLE || b.st == POLE) return V::bad(a.st == b.st ? UNDEF : POLE);
  const std::complex<long double> x = ld(a.v), y = ld(b.v), z = x + y;
  V r = from_ld(z, a.err + b.err);
  // Absorption of a small operand is a rounding error even if the sum is a short number.
  if (r.is_ok() && !(z - x == y && z - y == x)) r.err += EPS * (std::abs(a.v) + std::abs(b.v));
  return r;
}
inline V neg(const V& a) {
  if (!a.is_ok()) return a;
  V r = V::ok(-a.v, a.err);
  r.amb = a.amb;
  return r;
}
inline V mul_(const V& a, const V& b) {
  V o;
  if (worse(a, b, o)) return o;
  if (a.st == POLE || b.st == POLE) {
    const V& f = a.st == POLE ? b : a;
    if (f.st == POLE) return V::bad(POLE);
    if (f.zero()) return V::bad(UNDEF);
    if (f.maybe_zero()) return V::bad(NOISE);
    return V::bad(POLE);
  }
  // Written out so that real*complex stays free of spurious rounding.
  const long double ar = a.v.real(), ai = a.v.imag(), br = b.v.real(), bi = b.v.imag();
  V r = from_ld({ar * br - ai * bi, ar * bi + ai * br},
                std::abs(a.v) * b.err + std::abs(b.v) * a.err + a.err * b.err);
  if (r.is_ok() && ai == 0 && bi == 0 && r.exact() && std::fma(a.v.real(), b.v.real(), -r.v.real()) != 0)
    r.err = EPS * std::abs(r.v);
  if (r.is_ok() && (ai != 0 || bi != 0)) {  // cancellation between the products
    const long double t = std::abs(ar * br) + std::abs(ai * bi), u = std::abs(ar * bi) + std::abs(ai * br);
    if (t > 16 * std::abs(r.v.real()) || u > 16 * std::abs(r.v.imag())) {
      if (!r.exact() || t + u > 1e9L) r.err += EPS * static_cast<double>(t + u) * 0.1;
    }
  }
  return r;
}
inline V mul(const V& a, const V& b) {
  V r = mul_(a, b);
  r.amb = a.amb || b.amb;
  return r;
}
inline V inv_(const V& a) {
  if (a.st == POLE) return V::ok(0);
  if (!a.is_ok()) return V::bad(a.st == UNDEF ? UNDEF : NOISE);
  if (a.zero()) return V::bad(POLE);
  if (a.maybe_zero()) return V::bad(NOISE);
  std::complex<long double> z;
  if (a.v.imag() == 0)
    z = {1.0L / a.v.real(), 0};
  else if (a.v.real() == 0)
    z = {0, -1.0L / a.v.imag()};
  else
    z = 1.0L / ld(a.v);
  const double m = std::abs(a.v);
  V r = from_ld(z, a.err / (m * m) * 1.1);
  if (r.is_ok() && r.err == 0) {
    // 1/z is only exact when the product gives back one.
    V c = mul_(r, a);
    if (!(c.v == C{1, 0})) r.err = EPS * std::abs(r.v);
    // a reciprocal that is not a short dyadic number is never exact
    double ip;
    if (std::modf(r.v.real() * 1048576.0, &ip) != 0 || std::modf(r.v.imag() * 1048576.0, &ip) != 0)
      r.err = EPS * std::abs(r.v);
  }
  return r;
}
inline V inv(const V& a) {
  V r = inv_(a);
  r.amb = a.amb;
  return r;
}
// Close to the half line (-inf, 0] but not structurally on it.
inline bool near_neg_axis(const V& a) {
  return a.v.real() <= K * a.err && a.v.imag() != 0 && std::abs(a.v.imag()) <= K * (a.err + EPS * std::abs(a.v));
}
// The library calls log(0) undefined; the arithmetic of it (1/log(0) = 0) is not expected of substitutions.
inline bool log_zero_undefined = false;
inline V log_(const V& a) {
  if (a.st == POLE) return V::bad(NOISE);
  if (!a.is_ok()) return V::bad(a.st == UNDEF ? UNDEF : NOISE);
  if (a.zero()) return V::bad(log_zero_undefined ? UNDEF : POLE);
  if (a.maybe_zero() || near_neg_axis(a)) return V::bad(NOISE);
  C r = a.v.imag() == 0 ? C{std::log(std::abs(a.v.real())), a.v.real() < 0 ? M_PI : 0.0} : std::log(a.v);
  if (a.v == C{1, 0} && a.exact()) return V::ok(0);
  return V::ok(r, a.err / std::abs(a.v) * 1.1 + EPS * (std::abs(r) + 1));
}
inline V exp_(const V& a) {
  if (a.st == POLE) return V::bad(UNDEF);
  if (!a.is_ok()) return V::bad(a.st == UNDEF ? UNDEF : NOISE);
  if (a.zero()) return V::ok(1);
  C r = a.v.imag() == 0 ? C{std::exp(a.v.real()), 0} : std::exp(a.v);
  if (std::abs(r) < 1e-100) return V::bad(NOISE);
  return V::ok(r, std::abs(r) * (a.err * 1.1 + EPS * (1 + std::abs(a.v))));
}
inline bool exact_int(const V& a, long long& n) {
  if (!a.exact() || a.v.imag() != 0 || std::abs(a.v.real()) > 1e9 || std::floor(a.v.real()) != a.v.real())
    return false;
  n = static_cast<long long>(a.v.real());
  return true;
}
inline V pow_(const V& a, const V& b) {
  V o;
  if (worse(a, b, o)) return o;
  if (b.st == POLE) return V::bad(UNDEF);
  if (std::abs(b.v) > 256) return V::bad(NOISE);  // floating-point coefficients may overflow here
  if (a.st == POLE) {
    if (b.zero()) return V::bad(UNDEF);
    if (std::abs(b.v.real()) <= K * b.err) return V::bad(NOISE);
    return b.v.real() > 0 ? V::bad(POLE) : V::ok(0);
  }
  if (a.zero()) {
    if (b.zero()) return V::bad(UNDEF);
    if (!b.real()) return V::bad(NOISE);
    if (std::abs(b.v.real()) <= K * b.err) return V::bad(b.exact() ? UNDEF : NOISE);
    return b.v.real() > 0 ? V::ok(0) : (b.real() ? V::bad(POLE) : V::bad(NOISE));
  }
  if (a.maybe_zero()) return V::bad(NOISE);
  long long n;
  if (exact_int(b, n) && std::llabs(n) <= 256) {
    V base = n < 0 ? inv(a) : a, r = V::ok(1);
    unsigned long long k = static_cast<unsigned long long>(std::llabs(n));
    while (k) {
      if (k & 1) r = mul(r, base);
      k >>= 1;
      if (k) base = mul(base, base);
    }
    return r;
  }
  if (near_neg_axis(a) || a.amb) return V::bad(NOISE);
  const double la = std::abs(std::log(std::abs(a.v))) + M_PI;
  C r;
  if (a.v.imag() == 0 && a.v.real() > 0 && b.v.imag() == 0) {
    r = std::pow(a.v.real(), b.v.real());
  } else {
    C lg = a.v.imag() == 0 ? C{std::log(std::abs(a.v.real())), a.v.real() < 0 ? M_PI : 0.0} : std::log(a.v);
    C e = b.v.imag() == 0 ? C{b.v.real() * lg.real(), b.v.real() * lg.imag()} : b.v * lg;
    if (b.v.imag() == 0 && a.v.imag() == 0) {
      // exp(i pi q) with q a multiple of 1/2 is on an axis.
      const double q = b.v.real() * 2;
      if (b.exact() && std::floor(q) == q) {
        const double m = std::exp(e.real());
        switch (((static_cast<long long>(q) % 4) + 4) % 4) {
          case 0: r = C{m, 0}; break;
          case 1: r = C{0, m}; break;
          case 2: r = C{-m, 0}; break;
          default: r = C{0, -m}; break;
        }
        return V::ok(r, m * (std::abs(b.v) * a.err / std::abs(a.v) * 1.1 + 2 * EPS * (1 + std::abs(b.v) * la)));
      }
    }
    r = std::exp(e);
  }
  // sqrt of an exact square is exact
  if (a.exact() && b.exact() && b.v == C{0.5, 0} && a.v.imag() == 0) {
    const double s = std::sqrt(std::abs(a.v.real()));
    if (s * s == std::abs(a.v.real()) && s < 1e6) return V::ok(a.v.real() > 0 ? C{s, 0} : C{0, s});
  }
  if (std::abs(r) < 1e-100) return V::bad(NOISE);
  V out = V::ok(r, std::abs(r) * (std::abs(b.v) * a.err / std::abs(a.v) * 1.1 + la * b.err + 2 * EPS * (1 + std::abs(b.v) * la)));
  out.amb = a.v.imag() == 0 && a.v.real() > 0 && b.v.imag() != 0;
  return out;
}

inline V trig(wf::built_in_function f, const V& a) {
  using F = wf::built_in_function;
  if (a.st == POLE) return V::bad(UNDEF);
  if (!a.is_ok()) return V::bad(a.st == UNDEF ? UNDEF : NOISE);
  const bool re = a.v.imag() == 0;
  const double x = a.v.real(), y = a.v.imag(), m = std::abs(a.v);
  auto fin = [&](C r, double d) { return V::ok(r, (a.err > 0 ? 1.1 * d * a.err : 0.0) + EPS * (std::abs(r) + (std::isfinite(d) && m > 0 ? std::min(d, 1e6) * m * 0.5 : 0.0))); };
  auto sq = [](double v) { return v * v; };
  const double nz = K * (a.err + EPS * (m + 1));
  switch (f) {
    case F::cos:
      if (a.zero()) return V::ok(1);
      return fin(re ? C{std::cos(x), 0} : std::cos(a.v), std::abs(std::sin(a.v)));
    case F::sin:
      if (a.zero()) return V::ok(0);
      return fin(re ? C{std::sin(x), 0} : std::sin(a.v), std::abs(std::cos(a.v)));
    case F::tan: {
      if (a.zero()) return V::ok(0);
      const double c = re ? std::abs(std::cos(x)) : std::abs(std::cos(a.v));
      if (nz > 1e-6 && c < nz) return V::bad(NOISE);
      if (c < 1e-8) return V::bad(HUGE_);
      return fin(re ? C{std::tan(x), 0} : std::tan(a.v), 1 / sq(c));
    }
    case F::cosh:
      if (a.zero()) return V::ok(1);
      return fin(re ? C{std::cosh(x), 0} : std::cosh(a.v), std::abs(std::sinh(a.v)));
    case F::sinh:
      if (a.zero()) return V::ok(0);
      return fin(re ? C{std::sinh(x), 0} : std::sinh(a.v), std::abs(std::cosh(a.v)));
    case F::tanh: {
      if (a.zero()) return V::ok(0);
      const double c = std::abs(std::cosh(a.v));
      if (nz > 1e-6 && c < nz) return V::bad(NOISE);
      if (c < 1e-8) return V::bad(HUGE_);
      return fin(re ? C{std::tanh(x), 0} : std::tanh(a.v), 1 / sq(c));
    }
    case F::arccos:
    case F::arcsin: {
      if (std::abs(y) <= nz) {  // near the real axis
        if (std::abs(x) > 1 + nz || (std::abs(std::abs(x) - 1) <= nz && !(a.exact() && re))) return V::bad(NOISE);
        if (!re) {
          // inside (-1, 1) the functions are analytic
        }
      }
      C r = re ? C{f == F::arccos ? std::acos(x) : std::asin(x), 0} : (f == F::arccos ? std::acos(a.v) : std::asin(a.v));
      if (f == F::arcsin && a.zero()) return V::ok(0);
      if (f == F::arccos && a.exact() && re && x == 1) return V::ok(0);
      return fin(r, 1 / std::sqrt(std::abs(C{1, 0} - a.v * a.v) + 1e-300));
    }
    case F::arctan:
      if (a.zero()) return V::ok(0);
      if (std::abs(x) <= nz && std::abs(y) >= 1 - nz) {
        if (a.exact() && x == 0 && std::abs(y) == 1) return V::bad(POLE);
        return V::bad(NOISE);
      }
      return fin(re ? C{std::atan(x), 0} : std::atan(a.v), 1 / std::abs(C{1, 0} + a.v * a.v));
    case F::arccosh:
      if (std::abs(y) <= nz && x <= 1 + nz) {
        if (a.exact() && re && x == 1) return V::ok(0);
        if (!(re && x >= 1)) {
          // on the cut (-inf, 1): [-1, 1] has the value i*acos(x) under the usual convention
          if (re && a.exact() && std::abs(x) <= 1) return V::ok(C{0, std::acos(x)}, EPS * 4);
          return V::bad(NOISE);
        }
        if (!a.exact() && x <= 1 + nz) return V::bad(NOISE);
      }
      return fin(re ? C{std::acosh(x), 0} : std::acosh(a.v), 1 / std::sqrt(std::abs(C{1, 0} - a.v * a.v) + 1e-300));
    case F::arcsinh:
      if (a.zero()) return V::ok(0);
      if (std::abs(x) <= nz && std::abs(y) >= 1 - nz) {
        if (a.exact() && x == 0 && std::abs(y) == 1) return V::ok(C{0, y > 0 ? M_PI_2 : -M_PI_2}, 4 * EPS);
        return V::bad(NOISE);
      }
      return fin(re ? C{std::asinh(x), 0} : std::asinh(a.v), 1 / std::sqrt(std::abs(C{1, 0} + a.v * a.v) + 1e-300));
    case F::arctanh:
      if (a.zero()) return V::ok(0);
      if (std::abs(y) <= nz && std::abs(x) >= 1 - nz) {
        if (a.exact() && re && std::abs(x) == 1) return V::bad(POLE);
        return V::bad(NOISE);
      }
      return fin(re ? C{std::atanh(x), 0} : std::atanh(a.v), 1 / std::abs(C{1, 0} - a.v * a.v));
    case F::exp: return exp_(a);
    case F::log: return log_(a);
    case F::abs:
      if (re) return V::ok(std::abs(x), a.err);
      return V::ok(m, a.err + EPS * m);
    case F::signum:
      if (!re) return V::bad(NOISE);
      if (a.zero()) return V::ok(0);
      if (a.maybe_zero()) return V::bad(NOISE);
      return V::ok(x > 0 ? 1 : -1);
    case F::floor:
      if (!re || std::abs(x) > 1e12) return V::bad(NOISE);
      if (!a.exact() && std::abs(x - std::round(x)) <= K * a.err + 1e-12 * (1 + std::abs(x))) return V::bad(NOISE);
      return V::ok(std::floor(x));
    default: return V::bad(NOISE);
  }
}
inline V atan2_(const V& y, const V& x) {
  V o;
  if (worse(y, x, o)) return o;
  if (!y.is_ok() || !x.is_ok()) return V::bad(UNDEF);
  if (!y.real() || !x.real()) return V::bad(NOISE);
  if (y.zero() && x.zero()) return V::bad(UNDEF);
  const double a = y.v.real(), b = x.v.real(), m = std::hypot(a, b);
  if (m <= K * (y.err + x.err)) return V::bad(NOISE);
  if (y.zero()) return b > 0 ? V::ok(0) : V::ok(M_PI, EPS * 4);
  if (b < 0 && y.maybe_zero()) return V::bad(NOISE);
  return V::ok(std::atan2(a, b), (y.err + x.err) / m * 1.1 + 4 * EPS);
}

struct B {  // boolean value
  bool v{false};
  St st{OK};
};
inline B compare(wf::relational_operation op, const V& a, const V& b) {
  if (a.st == NOISE || b.st == NOISE || a.st == HUGE_ || b.st == HUGE_) return {false, NOISE};
  if (!a.is_ok() || !b.is_ok()) return {false, UNDEF};
  if (op == wf::relational_operation::equal) {
    if (a.exact() && b.exact()) return {a.v == b.v, OK};
    if (std::abs(a.v - b.v) <= K * (a.err + b.err)) return {false, NOISE};
    return {false, OK};
  }
  if (!a.real() || !b.real()) return {false, UNDEF};
  const double x = a.v.real(), y = b.v.real();
  if (!(a.exact() && b.exact()) && std::abs(x - y) <= K * (a.err + b.err)) return {false, NOISE};
  return {op == wf::relational_operation::less_than ? x < y : x <= y, OK};
}

// Some fixed entire function of n arguments, different for every name.
inline V opaque(const std::string& name, const std::vector<V>& args) {
  uint64_t h = 1469598103934665603ull;
  for (char c : name) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  auto next = [&]() {
    h = h * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<double>((h >> 40) % 1000) / 1000.0 + 0.15;
  };
  V s = V::ok(next()), q = V::ok(next(), EPS);
  for (std::size_t i = 0; i < args.size(); ++i) {
    s = add(s, mul(V::ok(next() * 0.4, EPS), args[i]));
    for (std::size_t j = i; j < args.size(); ++j)
      q = add(q, mul(V::ok(next() - 0.6, EPS), mul(args[i], args[j])));
  }
  return add(exp_(s), q);
}

struct Hash {
  std::size_t operator()(const scalar_expr& e) const { return wf::hash_struct<scalar_expr>{}(e); }
};
struct Eq {
  bool operator()(const scalar_expr& a, const scalar_expr& b) const { return a.is_identical_to(b); }
};

using Vec = std::vector<V>;
using VecP = std::shared_ptr<const Vec>;

// A set of evaluation points (assignments of leaves) with memoised values.
class Context {
 public:
  std::size_t n{0};
  // bindings; later entries win.
  std::vector<std::pair<scalar_expr, Vec>> bind;
  const Context* frozen{nullptr};  // stop_derivative is evaluated here, replicated
  std::size_t frozen_rep{1};
  bool memo_on{true};
  // The numeric sets inferred for log(positive) and for real**(non-negative symbol) are known to be
  // wrong (reported under C22 and by explicit cases elsewhere): points that fall outside the inferred
  // set of exactly these two node forms are undecided everywhere else.
  bool quarantine{true};
  // Every sub-expression has to have a finite real value (the semantics of generated code).
  bool real_only{false};
  // Values of external functions: (name, element, flattened arguments); opaque functions by default.
  std::function<V(const std::string&, std::size_t, const std::vector<V>&)> external{};
  bool real_abs{false};  // abs of non-real arguments is undecided (its derivative rule is for reals)
  std::size_t memo_limit{400000};

  void set(const scalar_expr& leaf, Vec v) {
    n = v.size();
    bind.emplace_back(leaf, std::move(v));
  }

  VecP eval(const scalar_expr& e) const {
    if (memo_on) {
      if (auto it = memo_.find(e); it != memo_.end()) return it->second;
    }
    VecP r = restrict(compute(e));
    if (memo_on) {
      if (memo_.size() > memo_limit) memo_.clear();
      memo_.emplace(e, r);
    }
    return r;
  }
  // Without adding the root to the memo table (children that are known are found there).
  VecP eval_nomemo(const scalar_expr& e) const {
    if (auto it = memo_.find(e); it != memo_.end()) return it->second;
    return restrict(compute(e));
  }
  std::vector<B> eval(const wf::boolean_expr& b) const {
    std::vector<B> out(n);
    wf::visit(b, [&](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, wf::boolean_constant>) {
        for (auto& o : out) o = {x.value(), OK};
      } else {
        const VecP l = eval(x.left()), r = eval(x.right());
        for (std::size_t i = 0; i < n; ++i) out[i] = compare(x.operation(), (*l)[i], (*r)[i]);
      }
    });
    return out;
  }
  void clear_memo() const { memo_.clear(); }

  Context replicate(std::size_t rep) const {
    Context c;
    c.n = n * rep;
    c.quarantine = quarantine;
    c.real_abs = real_abs;
    for (const auto& [l, v] : bind) {
      Vec w(n * rep);
      for (std::size_t i = 0; i < n; ++i)
        for (std::size_t k = 0; k < rep; ++k) w[i * rep + k] = v[i];
      c.bind.emplace_back(l, std::move(w));
    }
    return c;
  }
  // d^order e / d arg^order at every point, by Cauchy's formula on a circle of radius r. Exact up to
  // rounding for functions analytic in a larger disc, hence tried with two radii.
  Vec cauchy(const scalar_expr& e, const scalar_expr& arg, int order, double r1 = 0.25, double r2 = 0.15) const {
    Vec a = cauchy1(e, arg, order, r1), b = cauchy1(e, arg, order, r2);
    for (std::size_t i = 0; i < n; ++i) {
      if (!a[i].is_ok() || !b[i].is_ok()) {
        a[i] = V::bad(NOISE);
        continue;
      }
      const double d = std::abs(a[i].v - b[i].v);
      const double m = std::max(1.0, std::abs(a[i].v));
      if (d > 1e-7 * m) a[i] = V::bad(NOISE);
      else a[i].err += d + 1e-13 * m;
    }
    return a;
  }

  // First derivative along the real axis by central differences (two step sizes), for functions that
  // are smooth but not analytic (abs, conditionals, atan2 of reals). Kinks and jumps are undecided.
  Vec findiff(const scalar_expr& e, const scalar_expr& arg) const {
    Vec a = findiff1(e, arg, 1.0 / 64), b = findiff1(e, arg, 1.0 / 160);
    for (std::size_t i = 0; i < n; ++i) {
      if (!a[i].is_ok() || !b[i].is_ok()) {
        a[i] = V::bad(NOISE);
        continue;
      }
      const double d = std::abs(a[i].v - b[i].v);
      const double m = std::max(1.0, std::abs(a[i].v));
      if (d > 1e-7 * m) a[i] = V::bad(NOISE);
      else a[i].err += d + 1e-11 * m;
    }
    return a;
  }
  // Either way.
  Vec numeric_derivative(const scalar_expr& e, const scalar_expr& arg) const {
    Vec a = cauchy(e, arg, 1);
    bool missing = false;
    for (const V& v : a) missing = missing || !v.is_ok();
    if (missing) {
      const Vec b = findiff(e, arg);
      for (std::size_t i = 0; i < n; ++i)
        if (!a[i].is_ok()) a[i] = b[i];
    }
    return a;
  }

  VecP lookup(const scalar_expr& e) const {
    for (auto it = bind.rbegin(); it != bind.rend(); ++it)
      if (it->first.is_identical_to(e)) return std::make_shared<Vec>(it->second);
    return nullptr;
  }

 private:
  static constexpr int NC = 32;
  Vec cauchy1(const scalar_expr& e, const scalar_expr& arg, int order, double r) const {
    if (n * NC > 20000) return Vec(n, V::bad(NOISE));  // derivatives nested too deeply
    Context c = replicate(NC);
    const VecP centre = eval(e);
    VecP base = eval(arg);
    Vec w(n * NC);
    std::vector<C> ph(NC);
    for (int k = 0; k < NC; ++k) ph[k] = std::polar(1.0, 2 * M_PI * (k + 0.37) / NC);
    C pq[9][NC];
    for (int q = 0; q < 9; ++q)
      for (int k = 0; k < NC; ++k) pq[q][k] = std::polar(1.0, q * 2 * M_PI * (k + 0.37) / NC);
    for (std::size_t i = 0; i < n; ++i)
      for (int k = 0; k < NC; ++k) {
        V s = (*base)[i];
        if (s.is_ok()) s = V::ok(s.v + r * ph[k], EPS);
        w[i * NC + k] = s;
      }
    c.bind.emplace_back(arg, std::move(w));
    c.frozen = this;
    c.frozen_rep = NC;
    const VecP f = c.eval(e);
    double fact = 1;
    for (int k = 2; k <= order; ++k) fact *= k;
    Vec out(n);
    for (std::size_t i = 0; i < n; ++i) {
      C s{0, 0}, mean{0, 0};
      double m = 0, er = 0;
      bool good = (*centre)[i].is_ok();
      for (int k = 0; k < NC && good; ++k) {
        const V& v = (*f)[i * NC + k];
        if (!v.is_ok()) good = false;
        s += v.v * std::pow(ph[k], -order);
        mean += v.v;
        m = std::max(m, std::abs(v.v));
        er = std::max(er, v.err);
      }
      // The mean value property and vanishing negative Fourier coefficients: fail if there is a
      // singularity or a branch cut inside of the circle.
      const double slack = 1e-9 * std::max(1.0, m) + 100 * (er + (*centre)[i].err);
      if (good && std::abs(mean / double(NC) - (*centre)[i].v) > slack) good = false;
      for (int q = 1; good && q <= 8; ++q) {
        C t{0, 0};
        for (int k = 0; k < NC; ++k) t += (*f)[i * NC + k].v * pq[q][k];
        if (std::abs(t) / NC > slack) good = false;
      }
      const double sc = fact / std::pow(r, order);
      out[i] = good ? V::ok(s / double(NC) * sc, sc * (er + EPS * m)) : V::bad(NOISE);
    }
    return out;
  }

  Vec findiff1(const scalar_expr& e, const scalar_expr& arg, double h) const {
    constexpr int R = 9;
    if (n * R > 20000) return Vec(n, V::bad(NOISE));
    Context c = replicate(R);
    VecP base = eval(arg);
    Vec w(n * R);
    for (std::size_t i = 0; i < n; ++i)
      for (int k = 0; k < R; ++k) {
        V s = (*base)[i];
        if (s.is_ok() && s.real()) s = V::ok(s.v + C{(k - 4) * h, 0}, k == 4 ? s.err : s.err + EPS);
        else s = V::bad(NOISE);
        w[i * R + k] = s;
      }
    c.bind.emplace_back(arg, std::move(w));
    c.frozen = this;
    c.frozen_rep = R;
    VecP f = c.eval(e);
    Vec out(n);
    for (std::size_t i = 0; i < n; ++i) {
      bool good = true;
      double er = 0, m = 0;
      for (int k = 0; k < R; ++k) {
        const V& v = (*f)[i * R + k];
        good = good && v.is_ok();
        er = std::max(er, v.err);
        m = std::max(m, std::abs(v.v));
      }
      if (!good) {
        out[i] = V::bad(NOISE);
        continue;
      }
      auto F = [&](int k) { return (*f)[i * R + static_cast<std::size_t>(k + 4)].v; };
      const C d = (0.8 * (F(1) - F(-1)) - 0.2 * (F(2) - F(-2)) + (4.0 / 105) * (F(3) - F(-3)) - (1.0 / 280) * (F(4) - F(-4))) / h;
      auto side = [&](int q) { return (-25.0 * F(0) + 48.0 * F(q) - 36.0 * F(2 * q) + 16.0 * F(3 * q) - 3.0 * F(4 * q)) / (12 * h * q); };
      const C fw = side(1), bw = side(-1);
      if (std::abs(fw - bw) > 1e-3 * std::abs(d) + 1e-4) {
        out[i] = V::bad(NOISE);
        continue;
      }
      out[i] = V::ok(d, (er + EPS * m) * 3 / h);
    }
    return out;
  }
  VecP restrict(VecP r) const {
    if (!real_only) return r;
    bool bad = false;
    for (const V& v : *r) bad = bad || (v.is_ok() ? !v.real() : v.st == POLE);
    if (!bad) return r;
    Vec w(*r);
    for (V& v : w)
      if (v.is_ok() ? !v.real() : v.st == POLE) v = V::bad(v.is_ok() && std::abs(v.v.imag()) <= K * v.err ? NOISE : UNDEF);
    return mk(std::move(w));
  }
  VecP compute(const scalar_expr& e) const {
    if (auto p = lookup(e)) return p;
    return wf::visit(e, [&](const auto& x) -> VecP { return node(e, x); });
  }
  static VecP mk(Vec v) { return std::make_shared<Vec>(std::move(v)); }
  static bool is_constant(const scalar_expr& e) { return e.is_type<wf::integer_constant, wf::rational_constant, wf::float_constant>(); }
  VecP constant(V v) const { return mk(Vec(n, v)); }

  template <typename T>
  VecP node(const scalar_expr& e, const T& x) const {
    using namespace wf;
    if constexpr (std::is_same_v<T, addition>) {
      Vec r(n, V::ok(0));
      for (const scalar_expr& c : x.children()) {
        VecP v = eval(c);
        for (std::size_t i = 0; i < n; ++i) r[i] = add(r[i], (*v)[i]);
      }
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, multiplication>) {
      Vec r(n, V::ok(1));
      for (const scalar_expr& c : x.children()) {
        VecP v = eval(c);
        for (std::size_t i = 0; i < n; ++i) r[i] = mul(r[i], (*v)[i]);
      }
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, power>) {
      VecP a = eval(x.base()), b = eval(x.exponent());
      Vec r(n);
      for (std::size_t i = 0; i < n; ++i) r[i] = real_abs && (*a)[i].zero() && !is_constant(x.exponent()) ? V::bad(NOISE) : pow_((*a)[i], (*b)[i]);
      if (quarantine) {
        const number_set bs = determine_numeric_set(x.base()), es = determine_numeric_set(x.exponent());
        if (bs == number_set::real && (es == number_set::real_positive || es == number_set::real_non_negative)) {
          long long k;
          for (std::size_t i = 0; i < n; ++i)
            if ((*a)[i].is_ok() && (*a)[i].v.real() < 0 && !exact_int((*b)[i], k)) r[i] = V::bad(NOISE);
        }
      }
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, integer_constant>) {
      const double d = static_cast<double>(x.value().value());
      return constant(V::ok(d, std::abs(d) > 9e15 ? EPS * std::abs(d) : 0));
    } else if constexpr (std::is_same_v<T, rational_constant>) {
      const long double q = static_cast<long double>(x.numerator().value()) / static_cast<long double>(x.denominator().value());
      const double d = static_cast<double>(q);
      double ip;
      const bool ex = std::modf(d * 1048576.0, &ip) == 0 && static_cast<long double>(d) == q;
      return constant(V::ok(d, ex ? 0 : EPS * std::abs(d)));
    } else if constexpr (std::is_same_v<T, float_constant>) {
      const double d = x.value();
      if (!std::isfinite(d)) return constant(V::bad(UNDEF));
      double ip;
      const bool ex = std::abs(d) < 1e9 && std::modf(d * 1048576.0, &ip) == 0;
      return constant(V::ok(d, ex ? 0 : 4 * EPS * std::abs(d)));
    } else if constexpr (std::is_same_v<T, symbolic_constant>) {
      if (x.name() == symbolic_constant_enum::pi) return constant(V::ok(M_PI, EPS * 3));
      if (x.name() == symbolic_constant_enum::euler) return constant(V::ok(M_E, EPS * 3));
      return constant(V::bad(NOISE));
    } else if constexpr (std::is_same_v<T, imaginary_unit>) {
      return constant(V::ok(C{0, 1}));
    } else if constexpr (std::is_same_v<T, complex_infinity>) {
      return constant(V::bad(POLE));
    } else if constexpr (std::is_same_v<T, undefined>) {
      return constant(V::bad(UNDEF));
    } else if constexpr (std::is_same_v<T, built_in_function_invocation>) {
      if (x.enum_value() == built_in_function::arctan2) {
        VecP a = eval(x.args()[0]), b = eval(x.args()[1]);
        Vec r(n);
        for (std::size_t i = 0; i < n; ++i) {
          r[i] = atan2_((*a)[i], (*b)[i]);
          // On the branch cut the sign of a floating point zero decides between pi and -pi; an
          // expression does not carry it, so neither answer of generated code is wrong.
          if (real_only && (*a)[i].zero() && r[i].is_ok() && r[i].v.real() != 0 && !is_constant(x.args()[0])) r[i] = V::bad(NOISE);
        }
        return mk(std::move(r));
      }
      VecP a = eval(x.args()[0]);
      Vec r(n);
      for (std::size_t i = 0; i < n; ++i)
        r[i] = real_abs && x.enum_value() == built_in_function::abs && (*a)[i].is_ok() && !(*a)[i].real() ? V::bad(NOISE)
               : real_abs && x.enum_value() == built_in_function::signum && (*a)[i].zero() ? V::bad(NOISE)
                                                                                            : trig(x.enum_value(), (*a)[i]);
      if (real_abs && frozen && (x.enum_value() == built_in_function::floor || x.enum_value() == built_in_function::signum)) {
        // No differencing across the steps.
        const VecP f = frozen->eval(e);
        for (std::size_t i = 0; i < n; ++i)
          if (!(*f)[i / frozen_rep].is_ok() || (*f)[i / frozen_rep].v != r[i].v) r[i] = V::bad(NOISE);
      }
      if (quarantine && x.enum_value() == built_in_function::log && determine_numeric_set(x.args()[0]) == number_set::real_positive) {
        for (std::size_t i = 0; i < n; ++i)
          if (r[i].is_ok() && r[i].v.real() < 0) r[i] = V::bad(NOISE);
      }
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, conditional>) {
      const std::vector<B> c = eval(x.condition());
      VecP a = eval(x.if_branch()), b = eval(x.else_branch());
      Vec r(n);
      for (std::size_t i = 0; i < n; ++i)
        r[i] = c[i].st != OK ? V::bad(c[i].st) : (c[i].v ? (*a)[i] : (*b)[i]);
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, iverson_bracket>) {
      const std::vector<B> c = eval(x.arg());
      Vec r(n);
      for (std::size_t i = 0; i < n; ++i) r[i] = c[i].st != OK ? V::bad(c[i].st) : V::ok(c[i].v ? 1 : 0);
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, symbolic_function_invocation>) {
      std::vector<VecP> a;
      for (const scalar_expr& c : x.children()) a.push_back(eval(c));
      Vec r(n);
      std::vector<V> args(a.size());
      for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t k = 0; k < a.size(); ++k) args[k] = (*a[k])[i];
        r[i] = opaque(x.function().name(), args);
      }
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, unevaluated>) {
      return eval(x.contents());
    } else if constexpr (std::is_same_v<T, stop_derivative>) {
      if (!frozen) return eval(x.arg());
      VecP f = frozen->eval(x.arg());
      Vec r(n);
      for (std::size_t i = 0; i < n; ++i) r[i] = (*f)[i / frozen_rep];
      return mk(std::move(r));
    } else if constexpr (std::is_same_v<T, derivative>) {
      return mk(cauchy(x.differentiand(), x.argument(), x.order()));
    } else if constexpr (std::is_same_v<T, substitution>) {
      Context c;
      c.n = n;
      c.bind = bind;
      c.frozen = frozen;
      c.frozen_rep = frozen_rep;
      c.quarantine = quarantine;
      c.real_abs = real_abs;
      c.real_only = real_only;
      c.external = external;
      c.bind.emplace_back(x.target(), *eval(x.replacement()));
      return c.eval(x.input());
    } else if constexpr (std::is_same_v<T, compound_expression_element>) {
      // Results of external functions are constants for differentiation.
      if (frozen) {
        const VecP f = frozen->eval(e);
        Vec r(n);
        for (std::size_t i = 0; i < n; ++i) r[i] = (*f)[i / frozen_rep];
        return mk(std::move(r));
      }
      return element(x.provenance(), x.index());
    } else {
      // unbound variable
      return constant(V::bad(NOISE));
    }
  }

  void flatten(const wf::compound_expr& c, std::vector<VecP>& out, std::string& tag) const {
    wf::visit(c, [&](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, wf::custom_type_construction>) {
        for (const scalar_expr& s : x.children()) out.push_back(eval(s));
      } else if constexpr (std::is_same_v<T, wf::custom_type_argument>) {
        // Elements that have values, otherwise the name stands for all of them.
        const std::size_t k = x.type().total_size();
        std::vector<VecP> vals;
        for (std::size_t i = 0; i < k; ++i)
          if (auto p = lookup(wf::compound_expression_element::create(c, i))) vals.push_back(p);
        if (vals.size() == k) out.insert(out.end(), vals.begin(), vals.end());
        else tag += x.argument_name();
      } else {
        const std::size_t k = std::visit([](const auto& t) -> std::size_t {
          using R = std::decay_t<decltype(t)>;
          if constexpr (std::is_same_v<R, wf::scalar_type>) return 1;
          else if constexpr (std::is_same_v<R, wf::matrix_type>) return t.size();
          else return t.total_size();
        }, x.function().return_type());
        for (std::size_t i = 0; i < k; ++i) out.push_back(element(c, i));
      }
    });
  }
  void flatten_any(const wf::any_expression& a, std::vector<VecP>& out, std::string& tag) const {
    std::visit(
        [&](const auto& v) {
          using T = std::decay_t<decltype(v)>;
          if constexpr (std::is_same_v<T, scalar_expr>) {
            out.push_back(eval(v));
          } else if constexpr (std::is_same_v<T, wf::matrix_expr>) {
            for (const scalar_expr& s : v.to_vector()) out.push_back(eval(s));
          } else if constexpr (std::is_same_v<T, wf::boolean_expr>) {
            const auto b = eval(v);
            Vec r(n);
            for (std::size_t i = 0; i < n; ++i) r[i] = b[i].st != OK ? V::bad(b[i].st) : V::ok(b[i].v ? 1 : 0);
            out.push_back(mk(std::move(r)));
          } else {
            flatten(v, out, tag);
          }
        },
        a);
  }
  VecP element(const wf::compound_expr& c, std::size_t index) const {
    return wf::visit(c, [&](const auto& x) -> VecP {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, wf::custom_type_construction>) {
        return eval(x.at(index));
      } else {
        std::vector<VecP> a;
        std::string tag = "#" + std::to_string(index) + ":", fname;
        if constexpr (std::is_same_v<T, wf::external_function_invocation>) {
          tag += fname = x.function().name();
          for (const auto& q : x.children()) flatten_any(q, a, tag);
        } else {
          tag += x.argument_name();
        }
        Vec r(n);
        std::vector<V> args(a.size());
        for (std::size_t i = 0; i < n; ++i) {
          for (std::size_t k = 0; k < a.size(); ++k) args[k] = (*a[k])[i];
          r[i] = external && !fname.empty() ? external(fname, index, args) : opaque(tag, args);
        }
        return mk(std::move(r));
      }
    });
  }

  mutable std::unordered_map<scalar_expr, VecP, Hash, Eq> memo_;
};

// Outcome of comparing a reference value with the value of what the library built.
enum class Cmp { same, differ, skipped };
inline Cmp compare_values(const V& want, const V& got, bool strict_poles = true) {
  if (want.st == NOISE || want.st == UNDEF) return Cmp::skipped;
  if (got.st == NOISE) return Cmp::skipped;
  if (want.st == HUGE_) {
    return got.st == OK && std::abs(got.v) < 1e6 && got.err < 1 ? Cmp::differ : Cmp::skipped;
  }
  if (want.st == POLE) {
    if (!strict_poles) return Cmp::skipped;
    return got.st == OK ? Cmp::differ : (got.st == POLE ? Cmp::same : Cmp::skipped);
  }
  if (got.st == HUGE_) return std::abs(want.v) < 1e6 && want.err < 1 ? Cmp::differ : Cmp::skipped;
  if (got.st != OK) return Cmp::differ;
  const double m = std::max(std::abs(want.v), std::abs(got.v));
  const double tol = 50 * (want.err + got.err) + 1e-11 * m;
  if (tol > 1e-4 * std::max(1.0, m)) return Cmp::skipped;
  return std::abs(want.v - got.v) <= tol ? Cmp::same : Cmp::differ;
}
inline std::string show(const V& v) {
  char b[160];
  static const char* names[] = {"ok", "undefined", "complex-infinity", "huge", "undecided"};
  if (v.st != OK) return names[v.st];
  if (v.v.imag() == 0)
    snprintf(b, sizeof b, "%.15g", v.v.real());
  else
    snprintf(b, sizeof b, "%.15g%+.15gi", v.v.real(), v.v.imag());
  return b;
}
}  // namespace ref
