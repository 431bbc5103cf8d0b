// C22: inferred numeric sets contain every value.
#include "pool.h"
#include "wf/number_set.h"
using namespace h;

namespace {
Vars v;
const char* set_name(wf::number_set s) {
  switch (s) {
    case wf::number_set::real_positive: return "real_positive";
    case wf::number_set::real_non_negative: return "real_non_negative";
    case wf::number_set::real: return "real";
    case wf::number_set::complex: return "complex";
    default: return "unknown";
  }
}
// false if the value is certainly outside of the set
bool contains(wf::number_set s, const V& x) {
  if (s == wf::number_set::unknown || x.st == ref::NOISE || x.st == ref::UNDEF || x.st == ref::HUGE_) return true;
  if (x.st == ref::POLE) return false;  // complex infinity is in none of the sets
  const double tol = ref::K * x.err + 1e-13 * std::abs(x.v);
  const double re = x.v.real(), im = x.v.imag();
  switch (s) {
    case wf::number_set::real_positive: return std::abs(im) <= tol && (x.exact() ? re > 0 : re > -tol);
    case wf::number_set::real_non_negative: return std::abs(im) <= tol && re >= -tol;
    case wf::number_set::real: return std::abs(im) <= tol;
    default: return true;
  }
}

struct Run {
  ex::Explorer& e;
  Context c;
  explicit Run(ex::Explorer& e_, int n) : e(e_), c(points(v, n, false)) { c.quarantine = false; }

  // index of a point where the inferred set is wrong, or -1
  int wrong(const S& a, const VecP& g) const {
    const wf::number_set s = wf::determine_numeric_set(a);
    for (std::size_t i = 0; i < c.n; ++i)
      if (!contains(s, (*g)[i])) return static_cast<int>(i);
    return -1;
  }
  static std::vector<S> children(const S& a) {
    std::vector<S> out;
    wf::visit(a, [&](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, wf::addition> || std::is_same_v<T, wf::multiplication>) {
        for (const S& q : x.children()) out.push_back(q);
      } else if constexpr (std::is_same_v<T, wf::power>) {
        out = {x.base(), x.exponent()};
      } else if constexpr (std::is_same_v<T, wf::built_in_function_invocation>) {
        for (const S& q : x.args()) out.push_back(q);
      } else if constexpr (std::is_same_v<T, wf::conditional>) {
        out = {x.if_branch(), x.else_branch()};
      } else if constexpr (std::is_same_v<T, wf::unevaluated>) {
        out = {x.contents()};
      } else if constexpr (std::is_same_v<T, wf::stop_derivative>) {
        out = {x.arg()};
      }
    });
    return out;
  }
  // The innermost expression whose own inference is wrong (its children are right), at some point.
  S blame(const S& a) const {
    for (const S& q : children(a)) {
      const VecP g = c.eval_nomemo(q);
      if (wrong(q, g) >= 0) return blame(q);
    }
    return a;
  }
  static std::string call_site(const S& a) {
    std::string k = a.type_name().data();
    bool known = false;
    wf::visit(a, [&](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, wf::built_in_function_invocation>) {
        if (x.enum_value() == wf::built_in_function::log && wf::determine_numeric_set(x.args()[0]) == wf::number_set::real_positive &&
            wf::determine_numeric_set(a) == wf::number_set::real_positive) {
          k = "log(real_positive)";
          known = true;
        }
      } else if constexpr (std::is_same_v<T, wf::power>) {
        const auto es = wf::determine_numeric_set(x.exponent());
        if (wf::determine_numeric_set(x.base()) == wf::number_set::real && wf::determine_numeric_set(a) == wf::number_set::real &&
            (es == wf::number_set::real_positive || es == wf::number_set::real_non_negative) &&
            !x.exponent().template is_type<wf::integer_constant, wf::rational_constant, wf::float_constant, wf::symbolic_constant>()) {
          k = "pow(real, non-negative symbol)";
          known = true;
        }
      }
    });
    return known ? k : a.to_string();
  }
  void check(const S& a) {
    if (!e.next()) return;
    e.sample([&] { return a.to_string(); });
    const wf::number_set s = wf::determine_numeric_set(a);
    e.state(state_hash(a));
    ++e.count[std::string("inferred_") + set_name(s)];
    const VecP g = c.eval_nomemo(a);
    const int i = wrong(a, g);
    if (s != wf::number_set::unknown) ++e.count["transitions_decided"];
    if (i >= 0) {
      const S b = blame(a);
      const VecP gb = c.eval_nomemo(b);
      const int j = wrong(b, gb);
      std::string at;
      for (auto& [leaf, vals] : c.bind) at += " " + leaf.to_string() + "=" + ref::show(vals[j < 0 ? i : j]);
      e.violation(call_site(b), "in " + a.to_string() + ": " + b.to_string() + " is inferred " + set_name(wf::determine_numeric_set(b)) + " ; at" + at + " its value is " + ref::show((*gb)[j < 0 ? i : j]));
    }
  }
  template <typename F>
  void try_check(F&& f) {
    try {
      check(f());
    } catch (const wf::arithmetic_error&) {
    } catch (const wf::type_error&) {
    }
  }
};

void body(ex::Explorer& e) {
  Run t(e, 60);
  const S zoo = wf::constants::complex_infinity, im = wf::constants::imaginary_unit;
  const S pi = wf::constants::pi, eu = wf::constants::euler;
  Pool atoms;
  atoms.add_all({v.x, v.z, v.r, v.s, v.p, v.n, I(0), I(1), I(-1), I(2), I(-2), I(3), Q(1, 2), Q(-1, 2), Q(1, 3), Q(-3, 2), Q(2, 3), S(0.5), S(0.0), S(-0.5), S(-1.5), S(2.25), pi, eu, im, zoo});
  auto unary = [&](Pool& out, const std::vector<S>& in) {
    grow1(out, in);
    for (const S& a : in) {
      out.try_add([&] { return wf::make_unevaluated(a); });
      out.try_add([&] { return wf::stop_diff(a); });
    }
  };
  Pool d1;
  d1.add_all(atoms.v);
  unary(d1, atoms.v);
  grow2(d1, atoms.v, atoms.v);
  for (const S& a : atoms.v)
    for (const S& b : atoms.v) {
      d1.try_add([&] { return wf::atan2(a, b); });
      d1.try_add([&] { return wf::where(v.r < v.s, a, b); });
      d1.try_add([&] { return wf::iverson(a < b); });
      d1.try_add([&] { return wf::iverson(a == b); });
      d1.try_add([&] { return wf::max(a, b); });
    }
  for (const S& a : d1.v) t.check(a);
  e.count["pool_depth1"] = e.shard == 0 ? d1.size() : 0;
  // depth 2: every unary function of a depth-1 expression, every operation with a variable or constant
  Pool few;
  few.add_all({v.r, v.p, v.n, v.x, v.z, I(-1), I(2), Q(1, 2), Q(-1, 2), S(-1.5), S(0.5), im});
  if (e.thorough) few.add_all({v.s, I(3), I(-2), I(0), pi, Q(2, 3), Q(-3, 2), -v.p, -v.n});
  Pool d2;
  unary(d2, d1.v);
  for (const S& a : d2.v) t.check(a);
  for (const S& a : d1.v)
    for (const S& b : few.v) {
      for (const Op2& op : op2()) {
        t.try_check([&] { return op.build(a, b); });
        t.try_check([&] { return op.build(b, a); });
      }
      t.try_check([&] { return wf::where(v.r < v.s, a, b); });
      t.try_check([&] { return wf::where(v.r < v.s, b, a); });
    }
  // Leaves of every other kind: arguments, fields, elements of external results and of constructed
  // structs, internal variables of every set, calls, derivatives and substitutions.
  {
    const Opaque o;
    const wf::scalar_type flt(wf::numeric_primitive_type::floating_point);
    auto cycle = [&](const S& leaf, const std::vector<C>& values, std::size_t stride) {
      Vec w;
      for (std::size_t i = 0; i < t.c.n; ++i) w.push_back(V::ok(values[(i * stride + i / values.size()) % values.size()]));
      t.c.set(leaf, std::move(w));
      return leaf;
    };
    const std::vector<C> re{{-2, 0}, {-0.5, 0}, {0, 0}, {0.75, 0}, {3, 0}, {-1, 0}, {1.5, 0}};
    const std::vector<C> any{{-2, 0}, {0, 1}, {0, 0}, {0.5, -1.25}, {3, 0}, {-1, -1}, {1.5, 0}};
    std::vector<S> lv, plain;
    lv.push_back(cycle(wf::make_expr<wf::function_argument_variable>("arg0", wf::type_variant{flt}, std::size_t{0}), re, 1));
    lv.push_back(cycle(wf::make_expr<wf::function_argument_variable>("arg1", wf::type_variant{wf::matrix_type(2, 2)}, std::size_t{3}), re, 3));
    lv.push_back(cycle(wf::make_expr<wf::function_argument_variable>("arg2", wf::type_variant{o.outer}, std::size_t{1}), re, 5));
    lv.push_back(cycle(o.field(0), re, 2));
    lv.push_back(cycle(o.field(4), re, 4));
    lv.push_back(cycle(o.call_s(v.r), re, 3));
    lv.push_back(cycle(o.call_m(v.r, v.s, I(2))[1], re, 6));
    {
      const wf::external_function f{"ext_c", {wf::argument{"p0", flt, wf::argument_direction::input, 0}}, wf::type_variant{o.inner}};
      const auto r = std::get<wf::compound_expr>(f.create_invocation({wf::any_expression{v.p}}));
      for (std::size_t i : {0, 2}) lv.push_back(cycle(wf::compound_expression_element::create(r, i), re, i + 1));
    }
    for (wf::number_set q : {wf::number_set::real_positive, wf::number_set::real_non_negative, wf::number_set::real, wf::number_set::complex, wf::number_set::unknown}) {
      std::vector<C> values;
      for (const C& x : any)
        if ((q >= wf::number_set::complex || x.imag() == 0) && (q > wf::number_set::real_non_negative || x.real() >= 0) && (q > wf::number_set::real_positive || x.real() > 0)) values.push_back(x);
      lv.push_back(cycle(wf::make_unique_variable_symbol(q), values, 1));
      lv.push_back(cycle(S("q" + std::to_string(static_cast<int>(q)), q), values, 3));
    }
    const std::vector<S> parts{v.r, v.p, v.n, v.z, im, I(-1), v.p + v.n, -v.n, wf::constants::complex_infinity};
    for (std::size_t i = 0; i < parts.size(); ++i) {
      std::vector<S> el;
      for (std::size_t k = 0; k < 5; ++k) el.push_back(parts[(i + k * 2) % parts.size()]);
      const wf::compound_expr c = wf::create_custom_type_construction(o.inner, el);
      for (std::size_t k = 0; k < 5; ++k) lv.push_back(wf::compound_expression_element::create(c, k));
    }
    for (const S& a : {v.r, v.p, v.n, v.z}) {
      lv.push_back(fnv(o.f, {a}));
      lv.push_back(fnv(o.g, {a, v.p}));
      lv.push_back(dv(fnv(o.f, {a}), a));
      lv.push_back(sub_(fnv(o.f, {a}), a, v.p));
      lv.push_back(sub_(fnv(o.g, {v.s, a}), v.s, wf::pow(v.p, I(2))));
    }
    for (const S& a : lv) plain.push_back(a);
    Pool p1;
    p1.add_all(plain);
    unary(p1, plain);
    grow2(p1, plain, {v.r, v.p, v.n, I(2), I(-1), Q(1, 2), S(1.5)});
    for (const S& a : p1.v) t.check(a);
    for (std::size_t i = 0; i < plain.size(); ++i)
      for (std::size_t k = 0; k < plain.size(); k += e.thorough ? 1 : 3)
        for (const Op2& op : op2()) t.try_check([&] { return op.build(plain[i], plain[k]); });
    Pool p2;
    unary(p2, p1.v);
    for (const S& a : p2.v) t.check(a);
  }
  // Long sums and products: the set is that of all of the operands, wherever they stand.
  {
    const std::vector<S> odd{v.r, v.n, v.p, v.z, v.x, im, -v.p, wf::cos(v.r), wf::log(v.r), I(-2), wf::pow(v.r, I(3)), wf::pow(v.r, I(2)), wf::abs(v.z), S(-0.5)};
    std::vector<S> filler;
    for (int i = 0; i < 10; ++i) filler.push_back(wf::pow(v.p + i, Q(i + 1, 3)));
    for (std::size_t n = 2; n <= 9; ++n)
      for (const S& a : odd)
        for (const S& b : odd) {
          std::vector<S> el(filler.begin(), filler.begin() + static_cast<long>(n));
          el[n - 1] = a, el[n / 2] = b;
          t.try_check([&] { S r = el[0]; for (std::size_t k = 1; k < n; ++k) r = r + el[k]; return r; });
          t.try_check([&] { S r = el[0]; for (std::size_t k = 1; k < n; ++k) r = r * el[k]; return r; });
          t.try_check([&] { S r = el[0]; for (std::size_t k = 1; k < n; ++k) r = wf::where(v.r < v.s + static_cast<int>(k), r, el[k]); return r; });
          t.try_check([&] { S r = el[0]; for (std::size_t k = 1; k < n; ++k) r = k % 2 ? r * el[k] : r + el[k]; return wf::pow(r, I(static_cast<int>(n) - 5)); });
        }
  }
  // Exponents.
  for (const S& a : {v.r, v.p, v.n, -v.p, v.r * v.s, v.p + v.n, wf::abs(v.z), S(-1.5) * v.p})
    for (int num = -9; num <= 9; ++num)
      for (int den = 1; den <= 6; ++den)
        for (int m = 1; m <= 3; ++m) {
          t.try_check([&] { return wf::pow(a, Q(num, den)); });
          t.try_check([&] { return wf::pow(wf::pow(a, I(m)), Q(num, den)); });
          t.try_check([&] { return wf::pow(a, S(num / static_cast<double>(den))) * v.p; });
          t.try_check([&] { return wf::pow(a, I(m)) * wf::pow(v.n, Q(num, den)); });
        }
  // depth-1 x depth-1 over the variables (sums/products/powers of composite things), and depth 3 chains
  Pool g;
  g.add_all({v.r, v.s, v.p, v.n, -v.p, -v.n});
  Pool h1;
  h1.add_all(g.v);
  unary(h1, g.v);
  grow2(h1, g.v, {v.r, v.p, v.n, I(2), I(3), I(-1), I(-2), Q(1, 2), Q(-1, 2), Q(4, 3), S(0.5), im});
  e.count["pool_real1"] = e.shard == 0 ? h1.size() : 0;
  for (const S& a : h1.v)
    for (const S& b : h1.v)
      for (const Op2& op : op2()) t.try_check([&] { return op.build(a, b); });
  Pool h2;
  for (const S& a : h1.v)
    for (const S& b : {v.r, v.p, v.n, I(2), I(-1), Q(1, 2), Q(-3, 2), S(1.5)})
      for (const Op2& op : op2()) {
        h2.try_add([&] { return op.build(a, b); });
        h2.try_add([&] { return op.build(b, a); });
      }
  for (const S& a : h2.v) {
    for (const Fn1& f : fn1()) t.try_check([&] { return f.build(a); });
    for (const S& b : {v.r, v.p, v.n, I(-1), I(2), I(3), Q(1, 2), S(-0.5), im})
      for (const Op2& op : op2()) {
        t.try_check([&] { return op.build(a, b); });
        t.try_check([&] { return op.build(b, a); });
      }
    if (e.thorough)
      for (std::size_t k = 0; k < h1.size(); k += 9)
        for (const Op2& op : op2()) t.try_check([&] { return op.build(a, h1.v[k]); });
  }
}
}  // namespace

int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
