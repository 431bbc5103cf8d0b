// C02: functions, relations and conditionals preserve value.
#include "pool.h"
using namespace h;

namespace {
Vars v;

struct Run {
  ex::Explorer& e;
  Context c;
  explicit Run(ex::Explorer& e_, int n, bool real_only) : e(e_), c(points(v, n, real_only)) {}

  template <typename Build, typename Want, typename Name>
  void scalar_case(Build&& build, Want&& want, Name&& name) {
    if (!e.next()) return;
    e.sample(name);
    try {
      const S r = build();
      e.state(state_hash(r));
      const Vec w = want();
      const VecP g = c.eval_nomemo(r);
      uint64_t decided = 0;
      for (std::size_t i = 0; i < c.n; ++i) {
        const Cmp q = ref::compare_values(w[i], (*g)[i]);
        if (q == Cmp::skipped) continue;
        ++decided;
        if (q == Cmp::differ) {
          check_value(e, c, w, r, name());
          break;
        }
      }
      e.count["values_compared"] += decided;
      if (decided) ++e.count["transitions_decided"];
    } catch (const wf::arithmetic_error&) {
      ++e.count["arithmetic_errors"];
    } catch (const wf::type_error& x) {
      ++e.count["type_errors"];
      allow_type_error(x, name);
    } catch (const std::exception& x) {
      e.violation(name(), std::string("unexpected exception: ") + x.what());
    }
  }
  bool type_error_ok{false};
  template <typename Name>
  void allow_type_error(const std::exception& x, Name&& name) {
    if (!type_error_ok) e.violation(name(), std::string("unexpected type error: ") + x.what());
  }

  void unary(const Fn1& f, const S& a) {
    scalar_case([&] { return f.build(a); },
                [&] {
                  const VecP u = c.eval(a);
                  Vec w(c.n);
                  for (std::size_t i = 0; i < c.n; ++i) w[i] = ref::trig(f.f, (*u)[i]);
                  return w;
                },
                [&] { return std::string(f.name) + "(" + a.to_string() + ")"; });
  }
  void sqrt(const S& a) {
    scalar_case([&] { return wf::sqrt(a); },
                [&] {
                  const VecP u = c.eval(a);
                  Vec w(c.n);
                  for (std::size_t i = 0; i < c.n; ++i) w[i] = ref::pow_((*u)[i], V::ok(0.5));
                  return w;
                },
                [&] { return "sqrt(" + a.to_string() + ")"; });
  }
  void atan2(const S& a, const S& b) {
    scalar_case([&] { return wf::atan2(a, b); },
                [&] {
                  const VecP u = c.eval(a), q = c.eval(b);
                  Vec w(c.n);
                  for (std::size_t i = 0; i < c.n; ++i) w[i] = ref::atan2_((*u)[i], (*q)[i]);
                  return w;
                },
                [&] { return "atan2(" + a.to_string() + ", " + b.to_string() + ")"; });
  }
  void minmax(bool mx, const S& a, const S& b) {
    type_error_ok = is_inf(a) || is_inf(b);
    scalar_case([&] { return mx ? wf::max(a, b) : wf::min(a, b); },
                [&] {
                  const VecP u = c.eval(a), q = c.eval(b);
                  Vec w(c.n);
                  for (std::size_t i = 0; i < c.n; ++i) {
                    const V &x = (*u)[i], &y = (*q)[i];
                    if (!x.is_ok() || !y.is_ok() || !x.real() || !y.real()) {
                      w[i] = V::bad(ref::NOISE);
                    } else if (std::abs(x.v.real() - y.v.real()) <= 10 * (x.err + y.err)) {
                      w[i] = x;  // equal up to rounding
                      w[i].err = x.err + y.err;
                    } else {
                      w[i] = ((x.v.real() < y.v.real()) != mx) ? x : y;
                    }
                  }
                  return w;
                },
                [&] { return std::string(mx ? "max(" : "min(") + a.to_string() + ", " + b.to_string() + ")"; });
    type_error_ok = false;
  }
  static bool is_inf(const S& a) { return a.is_type<wf::complex_infinity, wf::undefined>(); }

  // op: 0 <, 1 <=, 2 ==, 3 >, 4 >=
  static wf::boolean_expr rel(int op, const S& a, const S& b) {
    switch (op) {
      case 0: return a < b;
      case 1: return a <= b;
      case 2: return a == b;
      case 3: return a > b;
      default: return a >= b;
    }
  }
  static const char* relname(int op) {
    static const char* n[] = {"<", "<=", "==", ">", ">="};
    return n[op];
  }
  std::vector<ref::B> relmean(int op, const Vec& a, const Vec& b) const {
    using R = wf::relational_operation;
    std::vector<ref::B> w(c.n);
    for (std::size_t i = 0; i < c.n; ++i) {
      const bool sw = op >= 3;
      const R r = op == 2 ? R::equal : ((op == 0 || op == 3) ? R::less_than : R::less_than_or_equal);
      w[i] = ref::compare(r, sw ? b[i] : a[i], sw ? a[i] : b[i]);
    }
    return w;
  }
  void relation(int op, const S& a, const S& b) {
    if (!e.next()) return;
    auto name = [&] { return "(" + a.to_string() + ") " + relname(op) + " (" + b.to_string() + ")"; };
    e.sample(name);
    try {
      const wf::boolean_expr r = rel(op, a, b);
      e.state(ex::Explorer::mix(wf::hash_struct<wf::boolean_expr>{}(r)));
      const auto w = relmean(op, *c.eval(a), *c.eval(b)), g = c.eval(r);
      uint64_t decided = 0;
      for (std::size_t i = 0; i < c.n; ++i) {
        if (w[i].st != ref::OK || g[i].st == ref::NOISE) continue;
        ++decided;
        if (g[i].st != ref::OK || g[i].v != w[i].v) {
          std::string at;
          for (auto& [leaf, vals] : c.bind) at += " " + leaf.to_string() + "=" + ref::show(vals[i]);
          e.violation(name(), "built: " + r.to_string() + " ; at" + at + " ; expected " + (w[i].v ? "true" : "false"));
          return;
        }
      }
      e.count["values_compared"] += decided;
      if (decided) ++e.count["transitions_decided"];
      // The cast to integer, and selection by the relation.
      const S iv = wf::iverson(r), sel = wf::where(r, v.p, -v.p);
      const VecP gi = c.eval_nomemo(iv), gs = c.eval_nomemo(sel), pv = c.eval(v.p);
      for (std::size_t i = 0; i < c.n; ++i) {
        if (w[i].st != ref::OK) continue;
        const V we = V::ok(w[i].v ? 1 : 0);
        if (ref::compare_values(we, (*gi)[i]) == Cmp::differ ||
            ref::compare_values(w[i].v ? (*pv)[i] : ref::neg((*pv)[i]), (*gs)[i]) == Cmp::differ) {
          e.violation("iverson/where of " + name(), "built: " + iv.to_string() + " and " + sel.to_string());
          return;
        }
      }
    } catch (const wf::type_error& x) {
      if (!is_inf(a) && !is_inf(b)) e.violation(name(), std::string("unexpected type error: ") + x.what());
    } catch (const wf::arithmetic_error& x) {
      e.violation(name(), std::string("unexpected arithmetic error: ") + x.what());
    } catch (const std::exception& x) {
      e.violation(name(), std::string("unexpected exception: ") + x.what());
    }
  }
  void conditional(int op, const S& a, const S& b, const S& x, const S& y) {
    type_error_ok = is_inf(a) || is_inf(b);
    scalar_case([&] { return wf::where(rel(op, a, b), x, y); },
                [&] {
                  const auto r = relmean(op, *c.eval(a), *c.eval(b));
                  const VecP u = c.eval(x), q = c.eval(y);
                  Vec w(c.n);
                  for (std::size_t i = 0; i < c.n; ++i) w[i] = r[i].st != ref::OK ? V::bad(ref::NOISE) : (r[i].v ? (*u)[i] : (*q)[i]);
                  return w;
                },
                [&] { return "where((" + a.to_string() + ") " + relname(op) + " (" + b.to_string() + "), " + x.to_string() + ", " + y.to_string() + ")"; });
    type_error_ok = false;
  }
};

void explore(ex::Explorer& e, bool real_only) {
  Run t(e, 60, real_only);
  const S zoo = wf::constants::complex_infinity, und = wf::constants::undefined, im = wf::constants::imaginary_unit;
  const S pi = wf::constants::pi, eu = wf::constants::euler;

  Pool atoms;
  atoms.add_all({v.x, v.y, v.r, v.s, v.p, v.n, I(0), I(1), I(-1), I(2), I(-2), I(3), I(7), I(-5), Q(1, 2), Q(-1, 2), Q(1, 3), Q(-3, 2), Q(2, 3), Q(7, 3), Q(-7, 3), Q(9, 2),
                 S(0.5), S(-0.5), S(1.0), S(-1.0), S(0.0), S(-1.5), S(2.25), S(3.0), S(-7.75), S(0.1), pi, eu, im, zoo, und});
  Pool d1;
  d1.add_all(atoms.v);
  // A. Rational multiples of pi, of i, and of both.
  for (int n = -13; n <= 13; ++n)
    for (int d : {1, 2, 3, 4, 5, 6, 7, 12}) {
      d1.add(pi * Q(n, d));
      d1.add(im * Q(n, d));
      d1.add(im * pi * Q(n, d));
      d1.add(S(n) / d);
      d1.add(S(double(n) / d));
      d1.add(v.x * Q(n, d));
      d1.add(v.r * im * Q(n, d));
      d1.add(pi * Q(n, d) + v.r);
      d1.add(pi * S(double(n) / d));
      d1.add(im * S(double(n) / d));
    }
  for (long long n : {25ll, 1000001ll, -1000001ll, 9007199254740993ll, -4611686018427387905ll})
    for (int d : {1, 2, 3, 4, 6}) d1.add(pi * Q(n, d));
  for (double f : {1e15, -1e15, 4503599627370497.5, -4503599627370496.5, 1e-9, -1e-9, 123456789.99, -0.999999999, 2.9999999999, 1e11 + 0.5, -1e11 - 0.5}) d1.add(S(f));
  for (auto [n, d] : {std::pair<long long, long long>{999999999999ll, 2}, {-999999999999ll, 2}, {1, 1000000007}, {-1, 1000000007}, {1000000007, 1000000009}, {-1000000007, 3}}) d1.add(Q(n, d));
  grow2(d1, atoms.v, {v.x, v.r, v.p, I(2), I(-1), Q(-1, 2), S(0.5), im, pi});
  for (const S& a : atoms.v)
    for (const S& b : {v.x, v.r, I(1)}) {
      d1.try_add([&] { return wf::where(v.r < v.s, a, b); });
      d1.try_add([&] { return wf::iverson(a < b); });
      d1.try_add([&] { return wf::atan2(a, b); });
    }
  e.count[real_only ? "pool_operands_real" : "pool_operands"] = e.shard == 0 ? d1.size() : 0;
  for (const S& a : d1.v) {
    for (const Fn1& f : fn1()) t.unary(f, a);
    t.sqrt(a);
  }
  // B. f(op(g(a))): every pair of functions, with a sign, a factor i, a factor 2, an offset between them.
  Pool inner;
  Pool base;
  base.add_all({v.x, v.r, v.p, v.n, -v.r, v.x * 2, v.x * v.y, v.x + v.y, v.r - v.s, v.x / v.y, I(2), I(-3), Q(1, 3), im, pi, eu, S(0.5)});
  base.add_all({v.y, v.z, v.r * v.s, v.x * im, v.x + im, Q(-5, 4), S(-2.5), v.p + 1, -v.p, v.n - 1, wf::pow(v.x, I(2)), wf::pow(v.p, Q(1, 2)), v.r / 2, pi / 5, wf::where(v.r < v.s, v.r, v.s)});
  grow1(inner, base.v);
  Pool mid;
  for (const S& a : inner.v) {
    mid.add(a);
    mid.try_add([&] { return -a; });
    mid.try_add([&] { return a * im; });
    mid.try_add([&] { return a * 2; });
    mid.try_add([&] { return a * S(-0.5); });
    mid.try_add([&] { return a + 1; });
    mid.try_add([&] { return 1 / a; });
    mid.try_add([&] { return wf::pow(a, I(2)); });
    mid.try_add([&] { return a * v.x; });
    mid.try_add([&] { return a * Q(-1, 3); });
    mid.try_add([&] { return a + pi; });
  }
  for (const S& a : mid.v) {
    for (const Fn1& f : fn1()) t.unary(f, a);
    t.sqrt(a);
  }
  {
    // Three nested functions.
    Pool third;
    Pool low;
    if (!e.thorough) {
      for (const S& a : inner.v) {
        low.add(a);
        low.try_add([&] { return -a; });
        low.try_add([&] { return a * im; });
      }
    }
    grow1(third, e.thorough ? mid.v : low.v);
    for (const S& a : third.v) {
      for (const Fn1& f : fn1()) t.unary(f, a);
      t.sqrt(a);
    }
  }
  // C. Binary functions, relations, min/max on all pairs.
  Pool pr;
  pr.add_all(atoms.v);
  pr.add_all({-v.x, -v.r, -v.p, v.r - v.s, v.r + 1, v.p + 1, v.n + 1, -v.n, v.r * 2, v.x * v.y, wf::abs(v.r), -wf::abs(v.r), wf::abs(v.x), wf::pow(v.r, I(2)), wf::exp(v.r), wf::cosh(v.r),
              wf::sqrt(I(2)), wf::sqrt(v.p), pi / 2, -pi, pi - 3, eu * 2, -eu, wf::iverson(v.r < v.s), wf::where(v.r < v.s, I(1), I(2)), wf::where(v.r < v.s, v.r, v.s), wf::floor(v.r), wf::signum(v.r),
              I(4), I(-4), Q(4, 2), S(4.0), S(-4.0), Q(3, 7), Q(-3, 7), Q(22, 7), Q(355, 113), S(3.14159), S(2.718281828), Q(314159, 100000), I(1000000007), Q(1000000006, 1000000007), wf::log(v.p), wf::cos(v.r)});
  grow2(pr, {v.r, v.s, v.p, v.n, I(2), I(-1)}, {v.r, v.p, Q(1, 2), I(-1)});
  if (e.thorough) {
    grow1(pr, {v.r, v.p, v.r - v.s, -v.r});
    grow2(pr, {v.x, v.r, v.p, Q(-3, 2)}, {v.s, v.n, pi});
  }
  for (const S& a : pr.v)
    for (const S& b : pr.v) {
      t.atan2(a, b);
      t.minmax(false, a, b);
      t.minmax(true, a, b);
      for (int op = 0; op < 5; ++op) t.relation(op, a, b);
    }
  for (int y = -4; y <= 4; ++y)
    for (int x = -4; x <= 4; ++x) {
      t.atan2(I(y), I(x));
      t.atan2(Q(y, 3), Q(x, 3));
      t.atan2(S(double(y) / 2), S(double(x) / 2));
      t.atan2(I(y), Q(x, 2));
      t.atan2(I(y) * v.p, I(x) * v.p);
    }
  // D. Conditionals, nested in each position.
  Pool br;
  br.add_all({v.r, v.s, I(1), I(0), -v.r, zoo, Q(1, 2), wf::where(v.r < v.s, v.r, v.s), wf::where(v.r < v.s, I(0), v.p), wf::where(v.s < v.r, v.r, I(2)), wf::where(v.r <= v.s, v.x, v.p), wf::where(v.r == v.s, v.s, v.n),
              wf::where(v.r < I(0), wf::where(v.r < v.s, v.r, v.s), v.p), wf::where(v.p < v.n, v.r, wf::where(v.r < v.s, I(3), v.s)), wf::iverson(v.r < v.s), wf::iverson(v.r <= v.s), wf::where(v.r < v.s, v.r + 1, v.s)});
  std::vector<std::pair<S, S>> cs{{v.r, v.s}, {v.s, v.r}, {v.r, I(0)}, {v.p, v.n}, {v.r, v.r}, {v.n, I(0)}, {I(0), v.p}, {wf::abs(v.r), I(0)}, {I(2), I(3)}, {wf::where(v.r < v.s, v.r, v.s), v.s}, {wf::iverson(v.r < v.s), I(1)}, {wf::iverson(v.r < v.s), I(0)}, {pi, I(3)}, {-v.p, I(0)}, {wf::where(v.r < v.s, I(1), I(2)), Q(3, 2)}, {-v.r, -v.s}, {I(0), v.r}, {Q(1, 2), S(0.5)}, {wf::cos(v.r), I(1)}, {wf::where(v.r < v.s, I(1), I(0)), I(1)}};
  for (auto& [a, b] : cs)
    for (const S& x : br.v)
      for (const S& y : br.v)
        for (int op = 0; op < 5; ++op) t.conditional(op, a, b, x, y);
}
// Functions of numbers, also on the branch cuts, where the value from either side is accepted (but no other one, and not NaN).
void numbers(ex::Explorer& e) {
  using F = wf::built_in_function;
  using L = std::complex<long double>;
  auto f = [](F k, L z) -> std::optional<L> {
    switch (k) {
      case F::log: return std::log(z);
      case F::exp: return std::exp(z);
      case F::cos: return std::cos(z);
      case F::sin: return std::sin(z);
      case F::tan: return std::tan(z);
      case F::arccos: return std::acos(z);
      case F::arcsin: return std::asin(z);
      case F::arctan: return std::atan(z);
      case F::cosh: return std::cosh(z);
      case F::sinh: return std::sinh(z);
      case F::tanh: return std::tanh(z);
      case F::arccosh: return std::acosh(z);
      case F::arcsinh: return std::asinh(z);
      case F::arctanh: return std::atanh(z);
      case F::abs: return L(std::abs(z));
      default: return {};
    }
  };
  std::vector<std::pair<S, L>> args;
  const S im = wf::constants::imaginary_unit;
  const std::vector<double> grid{0, 0.125, 0.5, 0.75, 1, 1.25, 1.5, 2, 2.75, 3, 4.5, 7, 10, 0.1, 0.3, 1.1, 3.3};
  std::vector<double> g;
  for (double d : grid) g.push_back(d), g.push_back(-d);
  for (double a : g) {
    args.emplace_back(S(a), L(a));
    if (a == std::floor(a)) args.emplace_back(I(static_cast<long long>(a)), L(a));
    else if (a * 8 == std::floor(a * 8)) args.emplace_back(Q(static_cast<long long>(a * 8), 8), L(a));
    for (double b : g)
      if (b != 0) {
        args.emplace_back(S(a) + S(b) * im, L(a, b));
        if (a == std::floor(a) && b == std::floor(b)) args.emplace_back(I(static_cast<long long>(a)) + I(static_cast<long long>(b)) * im, L(a, b));
      }
  }
  Context c;
  c.n = 1;
  for (const auto& [x, z] : args)
    for (const Fn1& fn : fn1()) {
      if (!e.next()) continue;
      const S r = fn.build(x);
      e.sample([&] { return r.to_string(); });
      e.state(state_hash(r));
      const V v = (*c.eval_nomemo(r))[0];
      if (v.st != ref::OK && v.st != ref::UNDEF) continue;
      bool ok = false, finite = false;
      std::string want;
      for (int side = 0; side < 4; ++side) {
        const L q(z.real() == 0 ? ((side & 2) ? -0.0L : 0.0L) : z.real(), z.imag() == 0 ? ((side & 1) ? -0.0L : 0.0L) : z.imag());
        const auto w = f(fn.f, q);
        if (!w) continue;
        if (!std::isfinite(w->real()) || !std::isfinite(w->imag())) continue;
        finite = true;
        want = std::to_string(static_cast<double>(w->real())) + " + " + std::to_string(static_cast<double>(w->imag())) + " i";
        ok = ok || (v.st == ref::OK && std::abs(L(v.v) - *w) <= 1e-10L * std::max(1.0L, std::abs(*w)));
      }
      if (!finite) continue;
      ++e.count["transitions_decided"];
      if (!ok) e.violation(std::string(fn.name) + " of a number", std::string(fn.name) + "(" + x.to_string() + ") = " + r.to_string() + " expected " + want);
    }
}

void body(ex::Explorer& e) {
  numbers(e);
  explore(e, false);
  explore(e, true);
}
}  // namespace

int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
