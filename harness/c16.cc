// C16: exact integer and rational arithmetic.
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <set>

#include "pool.h"
#include "wf/boolean_expression.h"
#include "wf/evaluate.h"
#include "wf/integer_utils.h"
#include "wf/numerical_casts.h"
using namespace h;
namespace mp = boost::multiprecision;
using BI = mp::cpp_int;
using BQ = mp::cpp_rational;
using BF = mp::cpp_bin_float_100;
using wf::checked_int;
using wf::rational_constant;

namespace {
const BI kMin = std::numeric_limits<std::int64_t>::min(), kMax = std::numeric_limits<std::int64_t>::max();
bool fits(const BI& b) { return b >= kMin && b <= kMax; }
bool fits(const BQ& q) { return fits(mp::numerator(q)) && fits(mp::denominator(q)); }
BI num(const BQ& q) { return mp::numerator(q); }
BI den(const BQ& q) { return mp::denominator(q); }
std::string str(const BQ& q) { return q.str(); }
BI big(checked_int c) { return BI(c.value()); }
BI bfloor(const BQ& q) {
  BI d = num(q) / den(q);
  if (num(q) < 0 && d * den(q) != num(q)) d -= 1;
  return d;
}

// A number of one of the three kinds, with its exact value.
struct Num {
  int kind;  // 0 integer, 1 rational, 2 float
  BQ q;
  double f;
  S e;
  std::string str() const { return kind == 2 ? "float " + e.to_string() : q.str(); }
};

struct Run {
  ex::Explorer& e;
  Vars v;
  std::vector<std::int64_t> L, Lsmall;
  std::vector<double> F;
  std::vector<BQ> R;
  std::vector<Num> N, Nsmall;

  explicit Run(ex::Explorer& e_) : e(e_) {
    const std::int64_t mx = std::numeric_limits<std::int64_t>::max(), mn = std::numeric_limits<std::int64_t>::min();
    std::set<std::int64_t> s{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 63, 64, 97, 1000, (1ll << 31) - 1, 1ll << 31, (1ll << 31) + 1, 1ll << 32, (1ll << 32) - 1, 3037000499ll, 3037000500ll, 1ll << 52, (1ll << 53) - 1, 1ll << 53, (1ll << 53) + 1, 1ll << 61, 1ll << 62, (1ll << 62) + 1, (1ll << 62) - 1, 1000000000000000000ll, 6074000999ll, mx / 3, mx / 2, mx - 1, mx, 1000003ll * 999983ll};
    std::set<std::int64_t> t = s;
    for (auto x : s) t.insert(-x);
    t.insert(mn);
    t.insert(mn + 1);
    L.assign(t.begin(), t.end());
    for (std::int64_t x : {0ll, 1ll, -1ll, 2ll, -2ll, 3ll, -5ll, 7ll, 1ll << 31, -(1ll << 31), 1ll << 32, (1ll << 53) + 1, 3037000500ll, -3037000500ll, 1ll << 62, -(1ll << 62), (long long)mx, (long long)mx - 1, (long long)mn, (long long)mn + 1, (long long)(mx / 3)}) Lsmall.push_back(x);
    std::set<BQ> rs;
    const std::vector<std::int64_t>& ln = e.thorough ? L : Lsmall;
    for (auto n : ln)
      for (std::int64_t d : {1ll, 2ll, 3ll, 4ll, 10ll, (1ll << 31) - 1, 1ll << 32, 3037000500ll, 1ll << 62, (long long)mx, (long long)mx - 1}) {
        BQ q{BI{n}, BI{d}};
        if (fits(q)) rs.insert(q);
      }
    R.assign(rs.begin(), rs.end());
    std::set<double> fs{0.5, 0.25, 1.5, 2.5, 0.1, 1.0 / 3, 1e-300, 1e300, 1e19, 1.8446744073709552e19, 4.9e-324, 3.0000000000000004};
    for (auto x : L) {
      const double d = static_cast<double>(x);
      fs.insert(d);
      fs.insert(std::nextafter(d, -INFINITY));
      fs.insert(std::nextafter(d, INFINITY));
    }
    std::set<double> ft;
    for (double d : fs) {
      ft.insert(d);
      ft.insert(-d);
    }
    F.assign(ft.begin(), ft.end());
    for (auto x : L) N.push_back({0, BQ(BI(x)), 0, I(x)});
    for (auto& q : R)
      if (den(q) != 1) N.push_back({1, q, 0, expr(q)});
    for (double d : F) N.push_back({2, BQ(d), d, S{d}});
    for (std::size_t i = 0; i < N.size(); ++i)
      if (N[i].kind == 2 ? i % 5 == 0 : N[i].kind == 1 ? i % 4 == 0 : i % 3 == 0) Nsmall.push_back(N[i]);
  }
  static rational_constant rat(const BQ& q) { return rational_constant{checked_int{static_cast<std::int64_t>(num(q))}, checked_int{static_cast<std::int64_t>(den(q))}}; }
  static S expr(const BQ& q) {
    if (den(q) == 1) return I(static_cast<std::int64_t>(num(q)));
    return S{rat(q)};
  }

  // The operation has the exact result `want` (or none: must raise); it may raise only when `may`.
  template <typename G>
  void exact(const std::string& what, const std::function<std::string()>& args, bool defined, const BQ& want, bool may_raise, G&& g) {
    if (!e.next()) return;
    e.sample([&] { return what + " " + args(); });
    ++e.count["transitions_decided"];
    e.state(ex::Explorer::mix(e.id()));
    try {
      const auto [n, d] = g();
      if (!defined) {
        e.violation(what, args() + ": returned " + big(n).str() + "/" + big(d).str() + " instead of raising an error");
        return;
      }
      if (d <= 0) {
        e.violation(what, args() + ": denominator " + big(d).str());
        return;
      }
      if (BQ(big(n), big(d)) != want || num(want) != big(n)) e.violation(what, args() + ": got " + big(n).str() + "/" + big(d).str() + " expected " + str(want));
    } catch (const wf::arithmetic_error& x) {
      ++e.count["arithmetic_errors"];
      if (defined && fits(want) && !may_raise) e.violation(what, args() + ": raised '" + x.what() + "' although the result is " + str(want));
    } catch (const wf::domain_error& x) {
      if (defined && fits(want) && !may_raise) e.violation(what, args() + ": raised '" + x.what() + "' although the result is " + str(want));
    } catch (const std::exception& x) {
      e.violation(what, args() + ": raised an unrelated error " + x.what());
    }
  }
  static std::pair<checked_int, checked_int> p(checked_int a) { return {a, checked_int{1}}; }
  static std::pair<checked_int, checked_int> p(const rational_constant& a) { return {a.numerator(), a.denominator()}; }

  void integers() {
    for (auto a : L) {
      const BI A = a;
      auto one = [&] { return std::to_string(a); };
      exact("checked_int neg", one, true, BQ(-A), false, [&] { return p(-checked_int{a}); });
      exact("checked_int abs", one, true, BQ(mp::abs(A)), false, [&] { return p(wf::abs(checked_int{a})); });
      exact("checked_int to uint64", one, a >= 0, BQ(A), false, [&] { return p(checked_int{static_cast<std::int64_t>(static_cast<std::uint64_t>(checked_int{a}))}); });
      for (auto b : L) {
        const BI B = b;
        auto two = [&] { return std::to_string(a) + ", " + std::to_string(b); };
        exact("checked_int +", two, true, BQ(A + B), false, [&] { return p(checked_int{a} + checked_int{b}); });
        exact("checked_int -", two, true, BQ(A - B), false, [&] { return p(checked_int{a} - checked_int{b}); });
        exact("checked_int *", two, true, BQ(A * B), false, [&] { return p(checked_int{a} * checked_int{b}); });
        exact("checked_int /", two, b != 0, b != 0 ? BQ(BI(A / B)) : BQ(0), false, [&] { return p(checked_int{a} / checked_int{b}); });
        exact("checked_int %", two, b != 0, b != 0 ? BQ(BI(A % B)) : BQ(0), a == L.front() && b == -1, [&] { return p(checked_int{a} % checked_int{b}); });
        exact("checked_int gcd", two, true, BQ(mp::gcd(A, B)), a == L.front() || b == L.front(), [&] { return p(wf::gcd(checked_int{a}, checked_int{b})); });
        exact("rational constructor", two, b != 0, b != 0 ? BQ(A, B) : BQ(0), false, [&] { return p(rational_constant{checked_int{a}, checked_int{b}}); });
        if (e.next()) {
          ++e.count["transitions_decided"];
          const checked_int x{a}, y{b};
          if ((x < y) != (a < b) || (x > y) != (a > b) || (x == y) != (a == b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) || (x != y) != (a != b)) e.violation("checked_int comparison", two());
        }
      }
      for (std::uint64_t k = 0; k < 70; ++k) {
        const BI P = mp::pow(A, static_cast<unsigned>(k));
        exact("integer_power", [&] { return std::to_string(a) + " ** " + std::to_string(k); }, true, BQ(P), false, [&] { return p(wf::integer_power(checked_int{a}, k)); });
      }
      if (e.next()) {
        ++e.count["transitions_decided"];
        if (checked_int{a}.is_even() != (a % 2 == 0)) e.violation("is_even", std::to_string(a));
      }
    }
    // prime factors
    std::vector<std::int64_t> pf;
    for (std::int64_t k = -2000; k <= (e.thorough ? 60000 : 6000); ++k) pf.push_back(k);
    for (std::int64_t a : {1ll << 62, 3037000499ll * 3037000499ll, 3037000493ll * 3037000453ll, 999999000001ll, 1000003ll * 999983ll, 4611686018427387847ll / 3, 1000000000000000000ll, 2147483647ll * 2147483647ll, 9223372036854775807ll, -9223372036854775807ll, 49ll, 121ll, 169ll, 10403ll, 46337ll * 46337ll}) pf.push_back(a);
    for (std::int64_t a : pf) {
      if (!e.next()) continue;
      ++e.count["transitions_decided"];
      const auto fs = wf::compute_prime_factors(checked_int{a});
      BI prod = 1;
      bool ok = true;
      for (auto& f : fs) {
        const std::int64_t b = f.base.value();
        prod *= mp::pow(BI(b), static_cast<unsigned>(f.exponent.value()));
        if (b != -1) {
          if (b < 2) ok = false;
          for (std::int64_t d = 2; d <= b / d && d < 100000; ++d)
            if (b % d == 0) ok = false;
        } else if (&f != &fs.front()) ok = false;
        if (&f != &fs.front() && !(fs[&f - fs.data() - 1].base < f.base)) ok = false;
      }
      if (a == 0 ? !fs.empty() : (!ok || prod != a)) e.violation("prime factors", std::to_string(a));
    }
  }

  void rationals() {
    for (auto& a : R) {
      const rational_constant ra = rat(a);
      auto one = [&] { return a.str(); };
      exact("rational normalized integer part", one, true, BQ(BI(num(a) / den(a))), false, [&] { return p(ra.normalized().first.value()); });
      exact("rational normalized fraction", one, true, a - BQ(BI(num(a) / den(a))), false, [&] { return p(ra.normalized().second); });
      {
        // wrapped angle: congruent modulo 2 and inside (-1, 1]
        BQ w = a - 2 * BQ(bfloor(a / 2));
        if (w > 1) w -= 2;
        exact("mod_pi_rational", one, true, w, false, [&] { return p(wf::mod_pi_rational(ra)); });
      }
      if (e.next()) {
        ++e.count["transitions_decided"];
        if (ra.is_integer() != (den(a) == 1) || ra.is_one() != (a == 1) || ra.is_zero() != (a == 0) || ra.is_positive() != (a > 0) || ra.is_negative() != (a < 0) || ra.is_proper() != (mp::abs(a) < 1) || ra.try_convert_to_integer().has_value() != (den(a) == 1))
          e.violation("rational predicates", one());
        const double f = static_cast<wf::float_constant>(ra).value();
        const BQ err = mp::abs(BQ(f) - a);
        if (a != 0 && err * BQ(BI(1) << 51) > mp::abs(a)) e.violation("rational to float", one());
      }
      for (auto& b : R) {
        auto two = [&] { return a.str() + ", " + b.str(); };
        const rational_constant rb = rat(b);
        const BI ad = num(a) * den(b), bd = num(b) * den(a), dd = den(a) * den(b), nn = num(a) * num(b);
        exact("rational +", two, true, a + b, !fits(ad) || !fits(bd) || !fits(dd) || !fits(BI(ad + bd)), [&] { return p(ra + rb); });
        exact("rational -", two, true, a - b, !fits(ad) || !fits(bd) || !fits(dd) || !fits(BI(ad - bd)), [&] { return p(ra - rb); });
        exact("rational *", two, true, a * b, !fits(nn) || !fits(dd), [&] { return p(ra * rb); });
        exact("rational /", two, b != 0, b != 0 ? BQ(a / b) : BQ(0), !fits(ad) || !fits(bd), [&] { return p(ra / rb); });
        if (b != 0) {
          const BQ q = a / b;
          exact("rational %", two, true, q - BQ(BI(num(q) / den(q))), !fits(ad) || !fits(bd) || !fits(q), [&] { return p(ra % rb); });
        }
        if (e.next()) {
          ++e.count["transitions_decided"];
          const auto o = wf::order_struct<rational_constant>{}(ra, rb);
          const int want = a < b ? -1 : a > b ? 1 : 0;
          if ((ra < rb) != (a < b) || (ra > rb) != (a > b) || (ra == rb) != (a == b) || static_cast<int>(o) != want) e.violation("rational comparison", two());
        }
      }
    }
  }

  void floats() {
    for (auto a : L)
      for (double f : F) {
        if (!e.next()) continue;
        ++e.count["transitions_decided"];
        const auto o = wf::compare_int_float(a, f);
        const BQ A{BI(a)}, B(f);
        const int want = A < B ? -1 : A > B ? 1 : 0;
        if (!o || static_cast<int>(*o) != want) e.violation("compare_int_float", std::to_string(a) + " , " + S{f}.to_string());
      }
  }

  // The exact value of a constant expression, if it is a number.
  static bool value(const S& x, BQ& out, int& kind) {
    if (const auto* i = wf::get_if<const wf::integer_constant>(x)) return out = BQ(big(i->value())), kind = 0, true;
    if (const auto* r = wf::get_if<const rational_constant>(x)) {
      if (r->denominator() <= 1 || mp::gcd(big(r->numerator()), big(r->denominator())) != 1) return false;  // not canonical
      return out = BQ(big(r->numerator()), big(r->denominator())), kind = 1, true;
    }
    if (const auto* f = wf::get_if<const wf::float_constant>(x)) {
      if (!std::isfinite(f->value())) return false;
      return out = BQ(f->value()), kind = 2, true;
    }
    return false;
  }
  // Scalar-level operation with an exact result.
  template <typename G>
  void scalar(const std::string& what, const std::function<std::string()>& args, const BQ& want, bool may_raise, G&& g) {
    if (!e.next()) return;
    e.sample([&] { return what + " " + args(); });
    ++e.count["transitions_decided"];
    try {
      const S r = g();
      BQ got;
      int k = 0;
      if (!value(r, got, k) || k == 2 || got != want) e.violation(what, args() + ": got " + r.to_string() + " expected " + want.str());
    } catch (const wf::arithmetic_error& x) {
      ++e.count["arithmetic_errors"];
      if (fits(want) && !may_raise) e.violation(what, args() + ": raised '" + x.what() + "' although the result is " + want.str());
    } catch (const std::exception& x) {
      e.violation(what, args() + ": raised an unrelated error " + x.what());
    }
  }

  void scalars() {
    std::vector<const Num*> X;
    for (auto& n : (e.thorough ? N : N))
      if (n.kind < 2) X.push_back(&n);
    for (const Num* a : X) {
      const BQ& q = a->q;
      auto one = [&] { return q.str(); };
      scalar("neg", one, -q, false, [&] { return -a->e; });
      scalar("abs", one, mp::abs(q), false, [&] { return wf::abs(a->e); });
      scalar("floor", one, BQ(bfloor(q)), false, [&] { return wf::floor(a->e); });
      scalar("signum", one, BQ(q > 0 ? 1 : q < 0 ? -1 : 0), false, [&] { return wf::signum(a->e); });
      // a coefficient is exact
      for (const Num* b : X) {
        const BQ& r = b->q;
        auto two = [&] { return q.str() + ", " + r.str(); };
        const BI ad = num(q) * den(r), bd = num(r) * den(q), dd = den(q) * den(r), nn = num(q) * num(r);
        scalar("+", two, q + r, !fits(ad) || !fits(bd) || !fits(dd) || !fits(BI(ad + bd)), [&] { return a->e + b->e; });
        scalar("-", two, q - r, !fits(BI(-bd)) || !fits(ad) || !fits(bd) || !fits(dd) || !fits(BI(ad - bd)) || !fits(BQ(-r)), [&] { return a->e - b->e; });
        scalar("*", two, q * r, !fits(nn) || !fits(dd), [&] { return a->e * b->e; });
        if (r != 0) {
          scalar("/", two, q / r, !fits(ad) || !fits(bd) || !fits(BI(-ad)) || !fits(BI(-bd)) || !fits(BQ(1 / r)), [&] { return a->e / b->e; });
        } else if (e.next()) {
          ++e.count["transitions_decided"];
          try {
            const S z = a->e / b->e;
            if (q == 0 ? !wf::is_undefined(z) : !wf::is_complex_infinity(z)) e.violation("division by zero", two() + ": got " + z.to_string());
          } catch (const std::exception& x) {
            e.violation("division by zero", two() + ": " + x.what());
          }
        }
        const bool mr = !fits(ad) || !fits(bd) || !fits(dd) || !fits(BI(ad + bd));
        symbolic("x coefficient", two, q + r, mr, [&](S& out) {
          const S s = v.x * a->e + v.x * b->e;
          if (s.is_type<wf::integer_constant>()) return out = s, true;  // 0
          auto [c, m] = wf::as_coeff_and_mul(s);
          out = c;
          return m.is_identical_to(v.x);
        });
        if (q != 0 && r != 0) symbolic("product of coefficients", two, q * r, !fits(nn) || !fits(dd), [&](S& out) {
          auto [c, m] = wf::as_coeff_and_mul((v.x * a->e) * (v.y * b->e));
          out = c;
          return m.is_identical_to(v.x * v.y);
        });
        symbolic("x exponent", two, q + r, mr, [&](S& out) {
          const S s = wf::pow(v.p, a->e) * wf::pow(v.p, b->e);
          if (s.is_type<wf::integer_constant>()) return out = I(0), s.is_identical_to(I(1));
          auto [b2, ex2] = wf::as_base_and_exp(s);
          out = ex2;
          return b2.is_identical_to(v.p);
        });
        if (q != 0 && r != 0 && den(r) == 1) symbolic("exponent product", two, q * r, !fits(nn) || !fits(dd), [&](S& out) {
          auto [b2, ex2] = wf::as_base_and_exp(wf::pow(wf::pow(v.p, a->e), b->e));
          out = ex2;
          return b2.is_identical_to(v.p);
        });
      }
      // integer powers
      std::vector<std::int64_t> exps;
      for (int k = -66; k <= 66; ++k) exps.push_back(k);
      for (auto k : L)
        if (k > 66 || k < -66) exps.push_back(k);
      for (std::int64_t k : exps) {
        if (q == 0 && k <= 0) continue;
        if (std::abs(static_cast<double>(k)) > 66 && q != 1 && q != -1 && q != 0) {
          // cannot be represented: has to raise
          if (!e.next()) continue;
          ++e.count["transitions_decided"];
          try {
            const S z = wf::pow(a->e, I(k));
            BQ got;
            int kk;
            if (value(z, got, kk)) e.violation("pow", q.str() + " ** " + std::to_string(k) + ": got " + z.to_string());
          } catch (const wf::arithmetic_error&) {
          } catch (const std::exception& x) {
            e.violation("pow", q.str() + " ** " + std::to_string(k) + ": raised an unrelated error " + x.what());
          }
          continue;
        }
        BQ want = 1;
        if (q == 0) want = 0;
        else if (mp::abs(q) == 1) want = (k % 2) ? q : BQ(1);
        else {
          const BI n = mp::pow(num(q), static_cast<unsigned>(std::abs(k))), d = mp::pow(den(q), static_cast<unsigned>(std::abs(k)));
          want = k >= 0 ? BQ(n, d) : BQ(d, n);
        }
        // an intermediate result: numerator and denominator are raised to |k| before they are exchanged
        const bool mid = k == std::numeric_limits<std::int64_t>::min() || (k < 0 && !fits(BQ(1 / q))) || (k < 0 && num(q) < 0 && !fits(BQ(BI(-mp::abs(num(want))))) ) || (k < 0 && (!fits(BI(mp::abs(num(want)))) || !fits(BI(den(want)))));
        scalar("pow", [&] { return q.str() + " ** " + std::to_string(k); }, want, mid, [&] { return wf::pow(a->e, I(k)); });
      }
    }
    // sums and products of three operands in every order
    std::vector<const Num*> T;
    for (auto& n : Nsmall)
      if (n.kind < 2) T.push_back(&n);
    const std::size_t lim = e.thorough ? T.size() : 45;
    std::vector<const Num*> T2;
    for (std::size_t i = 0; i < lim && i < T.size(); ++i) T2.push_back(T[i * T.size() / std::min(lim, T.size())]);
    auto prefix_ok_sum = [](const std::vector<BQ>& q) {
      BQ acc = 0;
      for (auto& r : q) {
        const BI ad = num(acc) * den(r), bd = num(r) * den(acc);
        if (!fits(ad) || !fits(bd) || !fits(BI(ad + bd)) || !fits(BI(den(acc) * den(r)))) return false;
        acc += r;
        if (!fits(acc)) return false;
      }
      return true;
    };
    auto prefix_ok_prod = [](const std::vector<BQ>& q) {
      BQ acc = 1;
      for (auto& r : q) {
        if (!fits(BI(num(acc) * num(r))) || !fits(BI(den(acc) * den(r)))) return false;
        acc *= r;
        if (!fits(acc)) return false;
      }
      return true;
    };
    for (auto* a : T2)
      for (auto* b : T2)
        for (auto* c : T2) {
          const std::vector<BQ> q{a->q, b->q, c->q};
          auto three = [&] { return a->q.str() + ", " + b->q.str() + ", " + c->q.str(); };
          scalar("sum of three", three, a->q + b->q + c->q, !prefix_ok_sum(q), [&] { return wf::addition::from_operands({a->e, b->e, c->e}); });
          scalar("product of three", three, a->q * b->q * c->q, !prefix_ok_prod(q), [&] { const std::vector<S> ops{a->e, b->e, c->e}; return wf::multiplication::from_operands(ops); });
        }
  }
  template <typename G>
  void symbolic(const std::string& what, const std::function<std::string()>& args, const BQ& want, bool may_raise, G&& g) {
    if (!e.next()) return;
    e.sample([&] { return what + " " + args(); });
    ++e.count["transitions_decided"];
    try {
      S r{0};
      const bool ok = g(r);
      BQ got;
      int k = 0;
      if (!ok || !value(r, got, k) || k == 2 || got != want) e.violation(what, args() + ": got " + r.to_string() + " expected " + want.str());
    } catch (const wf::arithmetic_error& x) {
      ++e.count["arithmetic_errors"];
      if (fits(want) && !may_raise) e.violation(what, args() + ": raised '" + x.what() + "' although the result is " + want.str());
    } catch (const std::exception& x) {
      e.violation(what, args() + ": raised an unrelated error " + x.what());
    }
  }

  // 100-digit value of a product of rational powers of positive numbers
  static bool high(const S& x, BF& out) {
    BQ q;
    int k;
    if (value(x, q, k)) return out = BF(num(q)) / BF(den(q)), true;
    bool ok = false;
    wf::visit(x, [&](const auto& n) {
      using T = std::decay_t<decltype(n)>;
      if constexpr (std::is_same_v<T, wf::multiplication>) {
        BF acc = 1, t;
        ok = true;
        for (const S& c : n.children()) {
          if (!high(c, t)) return void(ok = false);
          acc *= t;
        }
        out = acc;
      } else if constexpr (std::is_same_v<T, wf::power>) {
        BF b, ee;
        if (high(n.base(), b) && high(n.exponent(), ee) && b > 0) out = mp::pow(b, ee), ok = true;
      }
    });
    return ok;
  }
  void roots() {
    const std::vector<std::pair<int, int>> exps{{1, 2}, {-1, 2}, {3, 2}, {-3, 2}, {1, 3}, {2, 3}, {-2, 3}, {4, 3}, {5, 2}, {7, 3}, {1, 4}, {3, 4}, {1, 5}, {1, 62}, {61, 62}, {3, 62}, {-9, 4}, {5, 6}, {21, 2}};
    std::vector<BQ> bases;
    for (int k = 1; k <= (e.thorough ? 3000 : 400); ++k) bases.push_back(BQ(k));
    for (auto& q : std::vector<BQ>{BQ(BI(1) << 62), BQ(BI(1) << 61), BQ(BI(46337) * 46337 * 46337), BQ(1000000000000000000ll), BQ(BI(1000003) * 1000003 * 999983), BQ(5040ll * 5040), BQ(6074000999ll), BQ(1, 2), BQ(4, 9), BQ(8, 27), BQ(2, 3), BQ(12, 5), BQ(BI(1), BI(1) << 62), BQ(BI(1) << 62, BI(3)), BQ(6, 35), BQ(72, 1)}) bases.push_back(q);
    for (int n = 1; n < 20; ++n)
      for (int d = 2; d < 20; ++d)
        if (std::gcd(n, d) == 1) bases.push_back(BQ(n, d));
    for (auto& b : bases)
      for (auto [n, d] : exps) {
        if (!e.next()) continue;
        e.sample([&] { return "root " + b.str() + " ** " + std::to_string(n) + "/" + std::to_string(d); });
        try {
          const S r = wf::pow(expr(b), Q(n, d));
          BF got;
          if (!high(r, got)) {
            e.violation("rational power", b.str() + " ** " + std::to_string(n) + "/" + std::to_string(d) + ": unexpected form " + r.to_string());
            continue;
          }
          ++e.count["transitions_decided"];
          const BF want = mp::pow(BF(num(b)) / BF(den(b)), BF(n) / BF(d));
          if (mp::abs(got / want - 1) > BF("1e-60")) e.violation("rational power", b.str() + " ** " + std::to_string(n) + "/" + std::to_string(d) + ": got " + r.to_string());
        } catch (const wf::arithmetic_error&) {
          ++e.count["arithmetic_errors"];
          const BF a = mp::abs(BF(n) / BF(d));
          const BF m = mp::pow(BF(num(b) > den(b) ? num(b) : den(b)), a + 1);
          if (m < BF("1e15") && d <= 6) e.violation("rational power", b.str() + " ** " + std::to_string(n) + "/" + std::to_string(d) + ": raised an error although all quantities are small");
        }
      }
  }

  void relations() {
    struct Rel {
      const char* name;
      wf::boolean_expr (*make)(const S&, const S&);
      bool (*want)(const BQ&, const BQ&);
    };
    static const Rel rel[] = {{"<", [](const S& a, const S& b) { return a < b; }, [](const BQ& a, const BQ& b) { return a < b; }},
                              {">", [](const S& a, const S& b) { return a > b; }, [](const BQ& a, const BQ& b) { return a > b; }},
                              {"<=", [](const S& a, const S& b) { return a <= b; }, [](const BQ& a, const BQ& b) { return a <= b; }},
                              {">=", [](const S& a, const S& b) { return a >= b; }, [](const BQ& a, const BQ& b) { return a >= b; }},
                              {"==", [](const S& a, const S& b) { return a == b; }, [](const BQ& a, const BQ& b) { return a == b; }}};
    for (auto& a : N)
      for (auto& b : N) {
        if (!e.next()) continue;
        e.sample([&] { return "relations " + a.str() + " , " + b.str(); });
        bool decided = true;
        try {
          for (auto& r : rel) {
            const wf::boolean_expr x = r.make(a.e, b.e);
            const bool w = r.want(a.q, b.q);
            if (x.is_identical_to(wf::constants::boolean_true)) {
              if (!w) e.violation(std::string("relation ") + r.name, a.str() + " " + r.name + " " + b.str() + " is false but was resolved to true");
            } else if (x.is_identical_to(wf::constants::boolean_false)) {
              if (w) e.violation(std::string("relation ") + r.name, a.str() + " " + r.name + " " + b.str() + " is true but was resolved to false");
            } else {
              decided = false;
              ++e.count["relations_left_symbolic"];
            }
          }
        } catch (const std::exception& x) {
          e.violation("relation", a.str() + " , " + b.str() + ": raised " + x.what());
        }
        if (decided) ++e.count["transitions_decided"];
        // max, min and abs of the two (which rest on the relations)
        try {
          BQ g;
          int k;
          if (value(wf::max(a.e, b.e), g, k) && g != (a.q < b.q ? b.q : a.q)) e.violation("max", a.str() + " , " + b.str());
          if (value(wf::min(a.e, b.e), g, k) && g != (a.q < b.q ? a.q : b.q)) e.violation("min", a.str() + " , " + b.str());
        } catch (const std::exception& x) {
          e.violation("max/min", a.str() + " , " + b.str() + ": raised " + x.what());
        }
      }
  }

  void float_unary() {
    for (double f : F) {
      if (!e.next()) continue;
      ++e.count["transitions_decided"];
      e.sample([&] { return "float " + S{f}.to_string(); });
      auto chk = [&](const char* what, const S& r, const BQ& want) {
        BQ g;
        int k;
        if (!value(r, g, k) || g != want) e.violation(std::string("float ") + what, S{f}.to_string() + ": got " + r.to_string() + " expected " + want.str());
      };
      chk("value", S{f}, BQ(f));
      chk("neg", -S{f}, BQ(-f));
      chk("abs", wf::abs(S{f}), BQ(std::abs(f)));
      chk("floor", wf::floor(S{f}), BQ(std::floor(f)));
      chk("signum", wf::signum(S{f}), BQ((f > 0) - (f < 0)));
      const auto nc = wf::numerical_cast(S{f});
      if (!nc || !std::holds_alternative<double>(*nc) || std::get<double>(*nc) != f) e.violation("float cast", S{f}.to_string());
    }
    for (auto a : L) {
      if (!e.next()) continue;
      ++e.count["transitions_decided"];
      const auto nc = wf::numerical_cast(I(a));
      if (!nc || !std::holds_alternative<std::int64_t>(*nc) || std::get<std::int64_t>(*nc) != a) e.violation("integer cast", std::to_string(a));
      const S ev = wf::evaluate(I(a));
      const auto* f = wf::get_if<const wf::float_constant>(ev);
      if (!f || f->value() != static_cast<double>(a)) e.violation("integer to float", std::to_string(a));
    }
    // arithmetic between exact numbers and floats rounds the exact result at most a few times
    struct Op {
      const char* name;
      S (*make)(const S&, const S&);
      BQ (*want)(const BQ&, const BQ&);
    };
    static const Op ops[] = {{"+", h::b_add, [](const BQ& a, const BQ& b) -> BQ { return a + b; }}, {"-", h::b_sub, [](const BQ& a, const BQ& b) -> BQ { return a - b; }}, {"*", h::b_mul, [](const BQ& a, const BQ& b) -> BQ { return a * b; }}, {"/", h::b_div, [](const BQ& a, const BQ& b) -> BQ { return a / b; }}};
    const std::vector<Num>& X = e.thorough ? N : Nsmall;
    for (auto& a : X)
      for (auto& b : X) {
        if (a.kind != 2 && b.kind != 2) continue;
        for (auto& op : ops) {
          if (op.name[0] == '-' && b.kind != 2 && !fits(BQ(-b.q))) continue;
          if (op.name[0] == '/' && (b.q == 0 || (b.kind != 2 && !fits(BQ(1 / b.q))))) continue;
          if (!e.next()) continue;
          e.sample([&] { return std::string("mixed ") + a.str() + " " + op.name + " " + b.str(); });
          const BQ w = op.want(a.q, b.q);
          const BQ scale = (op.name[0] == '+' || op.name[0] == '-') ? BQ(mp::abs(a.q) + mp::abs(b.q)) : BQ(mp::abs(w));
          const double ws = static_cast<double>(BF(num(scale)) / BF(den(scale)));
          const double inv = b.q == 0 ? 0 : static_cast<double>(BF(den(b.q)) / BF(mp::abs(num(b.q))));
          if (!std::isfinite(ws) || (scale != 0 && ws < 1e-290) || !std::isfinite(inv) || (inv != 0 && inv < 1e-290)) continue;
          ++e.count["transitions_decided"];
          try {
            const S r = op.make(a.e, b.e);
            BQ g;
            int k;
            if (!value(r, g, k) || mp::abs(g - w) * BQ(BI(1) << 49) > scale) e.violation(std::string("mixed ") + op.name, a.str() + " " + op.name + " " + b.str() + ": got " + r.to_string() + " expected about " + (BF(num(w)) / BF(den(w))).str(20));
          } catch (const std::exception& x) {
            e.violation(std::string("mixed ") + op.name, a.str() + " " + op.name + " " + b.str() + ": raised " + x.what());
          }
        }
      }
  }

  void angles() {
    using F1 = wf::scalar_expr (*)(const S&);
    const F1 fs[] = {wf::sin, wf::cos, wf::tan};
    const char* names[] = {"sin", "cos", "tan"};
    Context c;
    c.set(v.x, Vec{V::ok(C{0.5, 0})});
    std::set<BQ> as;
    for (int d : {1, 2, 3, 4, 5, 6, 8, 12})
      for (int n = -30; n <= 30; ++n) as.insert(BQ(n, d));
    for (auto a : L)
      for (int d : {1, 2, 4, 3, 6}) {
        BQ q{BI{a}, BI{d}};
        if (fits(q)) as.insert(q);
      }
    for (auto& a : R) as.insert(a);
    const BF pi = mp::atan(BF(1)) * 4;
    for (auto& a : as)
      for (int k = 0; k < 3; ++k) {
        if (!e.next()) continue;
        e.sample([&] { return std::string(names[k]) + " " + a.str() + " pi"; });
        BQ w = a - 2 * BQ(bfloor(a / 2));
        if (w > 1) w -= 2;
        const BF ang = BF(num(w)) / BF(den(w)) * pi;
        const bool pole = k == 2 && (w == BQ(1, 2) || w == BQ(-1, 2));
        const double want = static_cast<double>(k == 0 ? mp::sin(ang) : k == 1 ? mp::cos(ang) : mp::tan(ang));
        try {
          const S r = fs[k](expr(a) * wf::constants::pi);
          if (pole) {
            ++e.count["transitions_decided"];
            if (!wf::is_complex_infinity(r)) e.violation(names[k], a.str() + " pi: got " + r.to_string());
            continue;
          }
          const VecP g = c.eval_nomemo(r);
          const V& got = (*g)[0];
          if (got.st == ref::NOISE || got.st == ref::HUGE_) continue;
          if (got.st != ref::OK) {
            e.violation(names[k], a.str() + " pi: got " + r.to_string());
            continue;
          }
          // an unevaluated sine of the wrapped angle is evaluated by the reference in double precision
          ++e.count["transitions_decided"];
          const double tol = 1e-12 * (1 + std::abs(want)) + (k == 2 ? 1e-13 * want * want : 0);
          if (std::abs(got.v - want) > tol + ref::K * got.err) e.violation(names[k], a.str() + " pi: got " + r.to_string() + " = " + ref::show(got) + " expected " + std::to_string(want));
        } catch (const wf::arithmetic_error& x) {
          e.violation(names[k], a.str() + " pi: raised " + x.what());
        } catch (const std::exception& x) {
          e.violation(names[k], a.str() + " pi: raised " + x.what());
        }
      }
  }
};

void body(ex::Explorer& e) {
  Run r(e);
  r.integers();
  r.rationals();
  r.floats();
  r.scalars();
  r.roots();
  r.relations();
  r.float_unary();
  r.angles();
  if (e.shard == 0) {
    e.count["integers"] = r.L.size();
    e.count["rationals"] = r.R.size();
    e.count["floats"] = r.F.size();
  }
}
}  // namespace
int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
