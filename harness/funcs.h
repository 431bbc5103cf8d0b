// Families of symbolic functions (function_description), enumerated for the code generation checks.
#pragma once
#include <set>

#include "pool.h"
#include "wf/code_generation/function_description.h"

namespace h {
constexpr auto FLT = wf::numeric_primitive_type::floating_point;
constexpr auto INT = wf::numeric_primitive_type::integral;

// Struct types and external functions that the generated functions may use.
struct Types {
  static wf::custom_type make(const char* n, std::vector<wf::struct_field> f) { return wf::custom_type{n, std::move(f), std::type_index(typeid(Types))}; }
  static wf::scalar_type F() { return wf::scalar_type{FLT}; }
  static wf::scalar_type N() { return wf::scalar_type{INT}; }
  // fields in an order in which names, types and sizes are all mixed
  wf::custom_type point{make("Point", {{"x", F()}, {"y", F()}})};
  wf::custom_type inner{make("Inner", {{"m", wf::matrix_type(2, 3)}, {"k", N()}, {"a", F()}})};
  wf::custom_type outer{make("Outer", {{"b", F()}, {"q", wf::type_variant{inner}}, {"v", wf::matrix_type(3, 1)}, {"p", wf::type_variant{point}}, {"n", N()}})};
  static wf::argument arg(const char* n, wf::type_variant t, std::size_t i) { return wf::argument{n, std::move(t), wf::argument_direction::input, i}; }
  wf::external_function e1{"e1", {arg("a", F(), 0), arg("b", F(), 1)}, F()};
  wf::external_function ei{"ei", {arg("a", F(), 0), arg("b", F(), 1)}, N()};
  wf::external_function em{"em", {arg("m", wf::matrix_type(2, 3), 0), arg("s", F(), 1)}, wf::matrix_type(3, 2)};
  wf::external_function et{"et", {arg("s", F(), 0), arg("p", point, 1), arg("v", wf::matrix_type(3, 1), 2)}, wf::type_variant{inner}};
  wf::external_function ep{"ep", {arg("q", inner, 0)}, wf::type_variant{point}};
  std::vector<wf::custom_type> structs() const { return {point, inner, outer}; }
  std::vector<wf::external_function> externals() const { return {e1, ei, em, et, ep}; }
};

inline std::size_t flat_size(const wf::type_variant& t) {
  return std::visit([](const auto& x) -> std::size_t {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, wf::scalar_type>) return 1;
    else if constexpr (std::is_same_v<T, wf::matrix_type>) return x.size();
    else return x.total_size();
  }, t);
}
// The numeric type of every element, in flat order.
inline std::vector<wf::numeric_primitive_type> flat_types(const wf::type_variant& t) {
  std::vector<wf::numeric_primitive_type> o;
  std::function<void(const wf::type_variant&)> go = [&](const wf::type_variant& q) {
    std::visit([&](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, wf::scalar_type>) o.push_back(x.numeric_type());
      else if constexpr (std::is_same_v<T, wf::matrix_type>) o.insert(o.end(), x.size(), FLT);
      else for (const auto& f : x.fields()) go(f.type());
    }, q);
  };
  go(t);
  return o;
}

// External functions are affine in every argument, with a few products; exact in doubles.
inline V external_value(const std::string& name, std::size_t idx, const std::vector<V>& a) {
  uint64_t hsh = 1469598103934665603ull;
  for (char c : name) hsh = (hsh ^ (unsigned char)c) * 1099511628211ull;
  const int s = static_cast<int>(hsh % 7);
  auto coef = [&](std::size_t k) { return static_cast<double>(static_cast<int>((k * 5 + idx * 3 + s) % 9) - 4) + 0.5; };
  if (name == "ei") return ref::add(ref::mul(V::ok(3), ref::trig(wf::built_in_function::floor, a[0])), V::ok(1));  // integer valued
  if (name == "et" && idx == 6) return ref::add(a[1].is_ok() ? V::ok(2) : a[1], V::ok(static_cast<double>(idx)));  // Inner.k
  V r = V::ok(0.25 * static_cast<double>(idx) - 1);
  for (std::size_t k = 0; k < a.size(); ++k) r = ref::add(r, ref::mul(V::ok(coef(k)), a[k]));
  if (!a.empty()) r = ref::add(r, ref::mul(V::ok(0.125), ref::mul(a.front(), a.back())));
  return r;
}

struct Leaf {
  S expr;
  wf::numeric_primitive_type type;
};
struct Output {
  wf::output_key key;
  wf::type_variant type;
  std::vector<S> elems;  // reference expressions
};
// elements of a compound expression
inline std::vector<S> flatten_compound(const wf::compound_expr& c, const wf::custom_type& t) {
  std::vector<S> o;
  for (std::size_t i = 0; i < t.total_size(); ++i) {
    if (const auto* k = wf::get_if<const wf::custom_type_construction>(c); k) o.push_back(k->at(i));
    else o.push_back(wf::compound_expression_element::create(c, i));
  }
  return o;
}
inline std::vector<S> flatten_any_expr(const wf::any_expression& e, const wf::type_variant& t) {
  if (const S* s = std::get_if<S>(&e)) return {*s};
  if (const wf::matrix_expr* m = std::get_if<wf::matrix_expr>(&e)) return m->to_vector();
  if (const wf::compound_expr* c = std::get_if<wf::compound_expr>(&e)) return flatten_compound(*c, std::get<wf::custom_type>(t));
  throw wf::type_error("unexpected output expression");
}

// Builds one function.
struct FB {
  const Types& t;
  wf::function_description d;
  std::vector<Leaf> leaves;
  std::vector<Output> outs;
  explicit FB(const Types& t_, const std::string& name) : t(t_), d(name) {}
  S f(const char* n) {
    S e = d.add_input_argument(n, wf::scalar_type{FLT});
    leaves.push_back({e, FLT});
    return e;
  }
  S i(const char* n) {
    S e = d.add_input_argument(n, wf::scalar_type{INT});
    leaves.push_back({e, INT});
    return e;
  }
  wf::matrix_expr m(const char* n, int r, int c) {
    wf::matrix_expr e = d.add_input_argument(n, wf::matrix_type(r, c));
    for (const S& q : e.to_vector()) leaves.push_back({q, FLT});
    return e;
  }
  wf::compound_expr c(const char* n, const wf::custom_type& ty) {
    wf::compound_expr e = d.add_input_argument(n, ty);
    const auto ft = flat_types(wf::type_variant{ty});
    for (std::size_t k = 0; k < ft.size(); ++k) leaves.push_back({wf::compound_expression_element::create(e, k), ft[k]});
    return e;
  }
  static S el(const wf::compound_expr& e, std::size_t k) { return wf::compound_expression_element::create(e, k); }
  void ret(wf::type_variant ty, wf::any_expression e) {
    outs.push_back({wf::output_key{wf::expression_usage::return_value, ""}, ty, flatten_any_expr(e, ty)});
    d.set_return_value(std::move(ty), std::move(e));
  }
  void ret(const S& e) { ret(wf::type_variant{wf::scalar_type{FLT}}, wf::any_expression{e}); }
  void out(const char* n, wf::type_variant ty, wf::any_expression e, bool opt = false) {
    outs.push_back({wf::output_key{opt ? wf::expression_usage::optional_output_argument : wf::expression_usage::output_argument, n}, ty, flatten_any_expr(e, ty)});
    d.add_output_argument(n, std::move(ty), opt, std::move(e));
  }
  void out(const char* n, const S& e, bool opt = false) { out(n, wf::type_variant{wf::scalar_type{FLT}}, wf::any_expression{e}, opt); }
  std::vector<std::string> optionals() const {
    std::vector<std::string> o;
    for (const Output& q : outs)
      if (q.key.usage == wf::expression_usage::optional_output_argument) o.push_back(q.key.name);
    return o;
  }
};

// Values of every leaf at npts points.
inline Context function_points(const FB& b, int npts) {
  static const std::vector<double> fl{0.5, -1, 2, -0.75, 1.25, 0, -3, 1, -0.25, 3.5, 0.75, -2.5, 1.5}, in{2, -1, 0, 3, 1, -2, 4};
  Context c;
  c.n = static_cast<std::size_t>(npts);
  c.real_only = true;
  c.quarantine = false;
  c.external = external_value;
  std::size_t k = 0;
  for (const Leaf& l : b.leaves) {
    const auto& src = l.type == INT ? in : fl;
    Vec w;
    for (std::size_t i = 0; i < c.n; ++i) {
      // strides that make equal values and both orders appear for every pair of arguments
      const std::size_t stride = 1 + k % 5;
      w.push_back(V::ok(src[(i * stride + 3 * k + (i / src.size()) * (k + 1)) % src.size()]));
    }
    c.bind.emplace_back(l.expr, std::move(w));
    ++k;
  }
  return c;
}

// ---------------------------------------------------------------------------------------------
// Families. Each function has a unique name (its key) and a body that fills in the builder.
using Body = std::function<void(FB&)>;
using Visit = std::function<void(const std::string& key, const Body&)>;

// Arguments shared by the scalar families: x y z r s (float), k l (int).
struct Args {
  Vars v;
  S k{I(0)}, l{I(0)};
  explicit Args(FB& b) {
    v.x = b.f("x");
    v.y = b.f("y");
    v.z = b.f("z");
    v.r = b.f("r");
    v.s = b.f("s");
    k = b.i("k");
    l = b.i("l");
    v.p = v.r;
    v.n = v.s;
  }
};
// The same expressions on placeholder arguments, to enumerate them without a function.
inline Args& proto() {
  static Types t;
  static FB b{t, "proto"};
  static Args a{b};
  return a;
}
inline bool generatable(const S& e) {
  return !contains_type<wf::imaginary_unit>(e) && !contains_type<wf::complex_infinity>(e) && !contains_type<wf::undefined>(e) && !contains_type<wf::derivative>(e) &&
         !contains_type<wf::substitution>(e) && !contains_type<wf::symbolic_function_invocation>(e) && !contains_type<wf::compound_expression_element>(e);
}
inline std::vector<S> literals() {
  const S two53 = I(9007199254740993LL);
  return {I(2), I(-2), I(3), I(-1), I(10), two53, I(-2147483649LL), I(4294967296LL), Q(1, 2), Q(-2, 3), Q(1, 3), S(0.5), S(-1.5), S(2.0), S(1.0), S(-1.0), S(0.1), S(1e16), S(1e20), S(-1e22), S(1e-7), S(123456789.125), S(1e60), S(5e-60), wf::constants::pi, wf::constants::euler, -wf::constants::pi};
}
inline std::vector<wf::boolean_expr> conditions(const Args& a) {
  return {a.v.x < a.v.y, a.v.y < a.v.x, a.v.x <= I(0), a.v.x == a.v.y, I(0) < a.v.z, a.v.z <= a.v.x * a.v.y, a.k < a.l, a.k == I(1), a.v.x < a.k, a.v.x + a.v.y <= a.v.z};
}

// A: scalar expressions. Depth of composition 1 (quick) or 2 (thorough) over the leaves.
inline std::vector<S> scalar_family(bool thorough) {
  const Args& a = proto();
  Pool p;
  for (const S& e : kinds(a.v, Opaque{})) p.add(e);
  std::vector<S> leaves{a.v.x, a.v.y, a.k, a.l};
  for (const S& e : leaves) p.add(e);
  for (const S& e : literals()) {
    p.add(e);
    p.try_add([&] { return a.v.x + e; });
    p.try_add([&] { return a.v.x * e; });
    p.try_add([&] { return a.v.x - e * a.v.y; });
    p.try_add([&] { return e / a.v.x; });
    p.try_add([&] { return wf::pow(a.v.x, e); });
    p.try_add([&] { return wf::pow(e, a.v.x); });
    p.try_add([&] { return wf::pow(a.k, e); });
    p.try_add([&] { return a.k + e; });
    p.try_add([&] { return a.k * e; });
    p.try_add([&] { return wf::where(a.v.x < e, e, a.v.y); });
    p.try_add([&] { return wf::where(a.k < e, a.k, e); });
    p.try_add([&] { return wf::max(a.v.x, e); });
    p.try_add([&] { return wf::abs(a.v.x * e - 1); });
  }
  // exponents of integer and float bases
  for (int n = -6; n <= 20; ++n)
    for (const S& b : {a.v.x, a.k, a.v.x + a.v.y, wf::where(a.v.x < a.v.y, a.v.x, I(2)), -a.v.x, wf::floor(a.v.x)}) {
      p.try_add([&] { return wf::pow(b, I(n)); });
      p.try_add([&] { return wf::pow(b, Q(n, 2)); });
      p.try_add([&] { return wf::pow(b, Q(n, 3)); });
      p.try_add([&] { return wf::pow(b, I(n)) * a.v.y; });
    }
  for (const S& b : {a.v.x, a.k, I(2), I(-3), S(1.5), Q(-1, 2)})
    for (const S& e : {a.k, a.l, -a.k, a.k + 1, a.k * 2, a.v.y, -a.v.y, a.v.y * -2, a.v.y / 2, wf::floor(a.v.y), wf::iverson(a.v.x < a.v.y)}) p.try_add([&] { return wf::pow(b, e); });
  // expressions of type integer (and boolean) inside of every kind of operation
  std::vector<S> ints{a.k, -a.k, a.k + a.l, a.k * a.l, a.k - 2, wf::floor(a.v.x), wf::signum(a.v.x), wf::signum(a.k), wf::abs(a.k), wf::iverson(a.v.x < a.v.y), -wf::signum(a.v.x), -wf::floor(a.v.x), wf::signum(a.v.x) * wf::signum(a.v.y), wf::signum(a.v.x) + a.k, a.k - wf::signum(a.v.x), wf::signum(a.v.x) * 2, wf::where(a.v.x < a.v.y, a.k, I(3)), wf::where(a.v.x < a.v.y, wf::signum(a.v.x), a.l), wf::max(a.k, a.l), wf::iverson(a.v.x < a.v.y) + wf::iverson(a.v.y < a.v.z), wf::floor(wf::floor(a.v.x) / 2), wf::signum(wf::floor(a.v.x)), wf::abs(wf::floor(a.v.x)), wf::abs(wf::signum(a.v.x) - 2), wf::signum(wf::where(a.v.x < a.v.y, a.v.x, a.v.z)), wf::signum(a.v.x + a.v.y), wf::signum(-a.v.x), wf::signum(a.v.x * a.v.y - a.v.z)};
  std::vector<S> with{a.v.y, a.l, I(2), I(-3), Q(1, 2), wf::signum(a.v.y), wf::floor(a.v.y), wf::where(a.v.y < a.v.x, a.v.y, a.l)};
  for (const S& e : ints) {
    p.add(e);
    for (const Fn1& f : fn1()) p.try_add([&] { return f.build(e); });
    p.try_add([&] { return wf::sqrt(e); });
    p.try_add([&] { return wf::exp(e * a.v.y); });
    p.try_add([&] { return wf::atan2(e, a.v.y); });
    p.try_add([&] { return wf::atan2(a.v.y, e); });
    p.try_add([&] { return wf::atan2(e, a.l); });
    for (const S& w : with) {
      for (const Op2& o : op2()) {
        p.try_add([&] { return o.build(e, w); });
        p.try_add([&] { return o.build(w, e); });
      }
      p.try_add([&] { return wf::where(e < w, e, w); });
      p.try_add([&] { return wf::where(w <= e, w * e, -e); });
      p.try_add([&] { return wf::where(e == w, a.v.x, e); });
      p.try_add([&] { return wf::max(e, w); });
      p.try_add([&] { return -(e * w); });
      p.try_add([&] { return wf::signum(e * w); });
      p.try_add([&] { return wf::iverson(e < w) * e; });
    }
  }
  // float expressions inside each other: precedence, unary minus, parentheses
  std::vector<S> subs{a.v.x + a.v.y, a.v.x - a.v.y, -a.v.x, a.v.x * a.v.y, a.v.x / a.v.y, -a.v.x * a.v.y, -(a.v.x + a.v.y), wf::pow(a.v.x, I(2)), wf::pow(a.v.x, I(-2)), wf::pow(a.v.x, a.v.y), wf::cos(a.v.x), -wf::cos(a.v.x), wf::where(a.v.x < a.v.y, a.v.x, a.v.z), wf::iverson(a.v.x < a.v.y), wf::signum(a.v.x), wf::floor(a.v.x), wf::abs(a.v.x), wf::exp(-a.v.x), wf::atan2(a.v.x, a.v.y), wf::max(a.v.x, a.v.y), 1 / (a.v.x + a.v.y), Q(-1, 2) * a.v.x, S(-1.5) + a.v.x, wf::sqrt(a.v.x * a.v.x + a.v.y * a.v.y), wf::make_unevaluated(a.v.x + a.v.y), wf::stop_diff(a.v.x * 2)};
  for (const S& e : subs) {
    for (const Fn1& f : fn1()) p.try_add([&] { return f.build(e); });
    for (const S& w : subs) {
      for (const Op2& o : op2()) p.try_add([&] { return o.build(e, w); });
      p.try_add([&] { return wf::where(e < w, e, w); });
      p.try_add([&] { return wf::where(w <= a.v.z, -e, w) * a.v.r; });
      if (thorough) {
        p.try_add([&] { return -(e - w); });
        p.try_add([&] { return -(e * w) + a.v.z; });
        p.try_add([&] { return a.v.z - (e + w); });
        p.try_add([&] { return a.v.z / (e * w); });
        p.try_add([&] { return a.v.z / (e / w); });
        p.try_add([&] { return (a.v.z - e) / w; });
        p.try_add([&] { return wf::pow(e, w) * a.k; });
        p.try_add([&] { return wf::where(e == w, a.k, a.l) + e; });
        p.try_add([&] { return wf::max(e, w) - wf::min(e, w); });
        p.try_add([&] { return wf::atan2(e, w); });
        p.try_add([&] { return wf::signum(e - w) * wf::floor(e); });
        p.try_add([&] { return wf::iverson(e < w) - wf::iverson(w < a.v.z); });
      }
    }
  }
  if (thorough) {
    std::vector<S> base = p.v;
    for (std::size_t q = 0; q < base.size(); q += 2) {
      p.try_add([&] { return wf::sin(base[q]) + a.v.z; });
      p.try_add([&] { return base[q] * base[q / 2]; });
      p.try_add([&] { return -base[q] + base[(q * 7 + 3) % base.size()]; });
      p.try_add([&] { return wf::where(base[q] < a.v.z, base[(q * 5 + 1) % base.size()], base[q]); });
    }
  }
  std::vector<S> o;
  for (const S& e : p.v)
    if (generatable(e)) o.push_back(e);
  return o;
}

// B: conditionals nested in conditionals, in operands, in conditions, shared between outputs.
inline std::vector<std::vector<S>> conditional_family(bool thorough) {
  const Args& a = proto();
  const auto cs = conditions(a);
  const std::vector<S> lv{a.v.x, a.v.y * a.v.z, wf::sin(a.v.x), I(2), a.v.x * a.v.y};
  std::vector<std::vector<S>> o;
  std::unordered_set<S, ref::Hash, ref::Eq> seen;
  auto one = [&](const S& e) {
    if (seen.insert(e).second) o.push_back({e});
  };
  const std::size_t nc = thorough ? 5 : 3, nl = thorough ? 4 : 3;
  std::vector<S> d1;
  for (std::size_t c = 0; c < nc; ++c)
    for (std::size_t p = 0; p < nl; ++p)
      for (std::size_t q = 0; q < nl; ++q)
        if (p != q) d1.push_back(wf::where(cs[c], lv[p], lv[q]));
  for (const S& e : d1) one(e);
  const std::size_t step = thorough ? 1 : 5;
  std::size_t n = 0;
  for (std::size_t c = 0; c < nc; ++c)
    for (const S& p : d1) {
      for (std::size_t q = 0; q < nl; ++q) {
        one(wf::where(cs[c], p, lv[q]));
        one(wf::where(cs[c], lv[q], p));
      }
      for (std::size_t j = n++ % step; j < d1.size(); j += step) one(wf::where(cs[c], p, d1[j]));
    }
  // used as operands and inside conditions
  std::vector<S> comb;
  for (std::size_t p = 0; p < d1.size(); ++p)
    for (std::size_t q = p % (thorough ? 2 : 5); q < d1.size(); q += thorough ? 2 : 5) {
      one(d1[p] + d1[q]);
      one(d1[p] * d1[q] + a.v.x);
      one(wf::where(d1[p] < d1[q], a.v.x, a.v.y));
      one(wf::where(d1[p] < a.v.z, d1[q], d1[p]));
      one(wf::where(a.v.x < a.v.y, d1[p] * d1[q], d1[p] + d1[q]));
    }
  // several outputs that share conditions and values
  const std::size_t m = o.size();
  for (std::size_t p = 0; p < m; p += thorough ? 3 : 11) {
    o.push_back({o[p][0], o[(p * 7 + 1) % m][0]});
    o.push_back({o[p][0], o[(p * 3 + 5) % m][0], o[p][0] * a.v.y});
    o.push_back({o[p][0], o[p][0], -o[p][0]});
    o.push_back({wf::sin(o[p][0]), wf::where(cs[p % nc], o[p][0], o[(p * 5 + 2) % m][0]), o[(p * 5 + 2) % m][0]});
  }
  return o;
}

// E: sums of products (factorisation), shared products (binarisation).
inline std::vector<std::vector<S>> sum_family(bool thorough) {
  const Args& a = proto();
  const S x = a.v.x, y = a.v.y, z = a.v.z, w = a.v.r;
  std::vector<S> mono{x, y, x * y, x * z, y * z, x * x, x * y * z, 2 * x, -x * y, x * x * y, 3 * x * z, x * y * w, z * w, -2 * y * z, x * x * x, Q(1, 2) * x * y, wf::sin(x) * y, wf::sin(x) * z, x / y, x * a.k, a.k * a.l, a.k * y, I(1)};
  std::vector<std::vector<S>> o;
  const std::size_t n = mono.size();
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = i + 1; j < n; ++j) {
      o.push_back({mono[i] + mono[j]});
      for (std::size_t k = j + 1; k < n; ++k) {
        o.push_back({mono[i] + mono[j] + mono[k]});
        for (std::size_t l = k + 1; l < n; ++l) {
          if (!thorough && (i + 2 * j + 3 * k + l) % 9) continue;
          o.push_back({mono[i] + mono[j] + mono[k] + mono[l]});
          if (thorough || (i + j + k + l) % 5 == 0) {
            o.push_back({mono[i] * mono[j] * mono[k], mono[i] * mono[j] * mono[l]});
            o.push_back({mono[i] + mono[j] + mono[k], mono[j] + mono[k] + mono[l]});
            o.push_back({(mono[i] + mono[j]) * (mono[k] + mono[l]), mono[i] * mono[k] + mono[i] * mono[l] + mono[j] * mono[k] + mono[j] * mono[l]});
          }
        }
      }
    }
  // polynomials with many shared factors
  for (int m = 1; m < (thorough ? 512 : 128); ++m) {
    S e = I(0);
    for (int t = 0; t < 9; ++t)
      if (m >> t & 1) e = e + wf::pow(x, I(t % 3)) * wf::pow(y, I(t / 3)) * (t % 2 ? z : w) * I(t - 4 ? t - 4 : 1);
    o.push_back({e});
    o.push_back({e, e * x, e + y});
  }
  return o;
}

// F: several outputs with negated products of negated sums (negations that meet after factorisation).
inline std::vector<std::vector<S>> negation_family(bool thorough) {
  const Args& a = proto();
  const S x = a.v.x, y = a.v.y, z = a.v.z, s = wf::sin(x);
  const std::vector<S> p{x, x * y, x * z, x * s, 2 * x, s, s * y, a.k, a.k * x}, m{x, y, z, s, x * y, x * x, a.k * y, I(1)}, base{I(0), x, x * y + z, -y};
  std::vector<std::vector<S>> o;
  std::vector<S> inner;  // sums of which every term is negative, and some of which not
  for (std::size_t i = 0; i < m.size(); ++i)
    for (std::size_t j = i + 1; j < m.size(); ++j) {
      inner.push_back(-m[i] - m[j]);
      inner.push_back(-m[i] - m[j] - y * m[(i + j) % m.size()]);
      inner.push_back(m[i] - m[j] * z - 2 * m[(i + 2 * j) % m.size()]);
    }
  const std::size_t n = inner.size(), step = thorough ? 2 : 17;
  std::size_t c = 0;
  for (std::size_t q = 0; q < p.size(); ++q)
    for (std::size_t r = q; r < p.size(); ++r)
      for (std::size_t i = c++ % step; i < n; i += step) {
        const S u = base[(i + q) % base.size()] - p[q] * inner[i], w = base[(i + r + 1) % base.size()] - p[r] * inner[(i * 5 + c) % n];
        o.push_back({u, w});
        o.push_back({u * w, -w, -u - x * w});
      }
  return o;
}

// Wraps expressions over the prototype arguments into functions.
inline Body scalar_body(std::vector<S> es) {
  return [es = std::move(es)](FB& b) {
    Args a(b);
    if (es.size() == 1) {
      b.ret(es[0]);
      return;
    }
    static const char* names[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9"};
    for (std::size_t i = 0; i + 1 < es.size(); ++i) b.out(names[i], es[i]);
    b.ret(es.back());
  };
}

// D: optional outputs (all presence masks are explored by the checks).
inline void optional_family(bool thorough, const Visit& vis) {
  const Args& a = proto();
  const auto cs = conditions(a);
  const S x = a.v.x, y = a.v.y, z = a.v.z;
  std::vector<S> es{x * y, wf::sin(x) * y, x + y * z, wf::where(cs[0], x * y, wf::sin(x)), wf::where(cs[0], z, wf::where(cs[4], y, wf::sin(x))), I(3), x, wf::where(cs[4], wf::sin(x), x * y), wf::pow(wf::sin(x) + y, I(2)), a.k * a.l, wf::floor(x) + a.k};
  std::size_t id = 0;
  const std::size_t n = es.size();
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j)
      for (std::size_t k = 0; k < n; ++k) {
        ++id;
        if (!thorough && (i * 3 + j * 5 + k) % 4) continue;
        for (int form = 0; form < 5; ++form) {
          if (!thorough && form != static_cast<int>(id % 5)) continue;
          vis("D" + std::to_string(form) + "_" + std::to_string(i) + "_" + std::to_string(j) + "_" + std::to_string(k), [=](FB& b) {
            Args q(b);
            const wf::matrix_type m21(2, 1);
            const wf::type_variant m{m21}, pt{b.t.point}, in{wf::scalar_type{INT}};
            auto vec = [&](const S& u, const S& w) { return wf::any_expression{wf::make_vector(u, w)}; };
            auto point = [&](const S& u, const S& w) { return wf::any_expression{wf::custom_type_construction::create(b.t.point, {u, w})}; };
            switch (form) {
              case 0:
                b.out("o0", es[i], true);
                b.out("o1", es[j], true);
                b.out("o2", es[k], true);
                break;
              case 1:
                b.out("o0", es[i], true);
                b.out("o1", es[j], false);
                b.out("o2", m, vec(es[k], es[i]), true);
                b.ret(es[k]);
                break;
              case 2:
                b.ret(es[i]);
                b.out("o1", pt, point(es[j], es[k]), true);
                b.out("o2", m, vec(es[j], es[i]), true);
                break;
              case 3:
                b.out("o0", m, vec(es[i], es[j]), false);
                b.out("o1", pt, point(es[j], es[k]), false);
                b.out("o2", in, wf::any_expression{wf::floor(es[k])}, true);
                break;
              default:
                b.out("o0", in, wf::any_expression{wf::floor(es[i])}, false);
                b.out("o1", es[j], true);
                b.out("o2", pt, point(es[i], es[j]), true);
                b.out("o3", es[k], true);
                b.ret(wf::type_variant{wf::scalar_type{INT}}, wf::any_expression{wf::signum(es[k])});
            }
          });
        }
      }
}

// C: every type as argument, return value, output and argument / result of an external function.
struct TypeCase {
  std::string key;
  Body body;
  bool returns_matrix;
};
inline std::vector<TypeCase> type_family() {
  using A = wf::any_expression;
  std::vector<TypeCase> o;
  auto put = [&](const char* k, Body b, bool rm = false) { o.push_back({k, std::move(b), rm}); };
  const wf::type_variant F{wf::scalar_type{FLT}}, N{wf::scalar_type{INT}};
  auto mat = [](int r, int c) { return wf::type_variant{wf::matrix_type(r, c)}; };
  auto inv = [](const wf::external_function& f, std::vector<A> a) { return f.create_invocation(std::move(a)); };
  put("scalar_in", [](FB& b) { S x = b.f("x"); S k = b.i("k"); b.ret(x * k + k); });
  put("int_ret", [=](FB& b) { S k = b.i("k"); S l = b.i("l"); b.ret(N, A{k * l - 2}); });
  put("int_ret_direct", [=](FB& b) { S k = b.i("k"); b.ret(N, A{k}); });
  put("int_as_float", [=](FB& b) { S k = b.i("k"); b.ret(F, A{k}); });
  put("const_ret", [=](FB& b) { b.f("x"); b.ret(F, A{I(3)}); });
  put("const_ret_i", [=](FB& b) { b.f("x"); b.ret(N, A{I(-3)}); });
  put("no_args", [=](FB& b) { b.ret(F, A{wf::constants::pi * 2}); });
  put("neg_const", [=](FB& b) { b.ret(F, A{I(-3)}); });
  put("rational_const", [=](FB& b) { b.ret(F, A{Q(-1, 3)}); });
  put("no_return", [=](FB& b) { S x = b.f("x"); b.out("o0", x + 1); });
  put("int_out", [=](FB& b) { S x = b.f("x"); b.out("o0", N, A{wf::floor(x)}); b.out("o1", N, A{wf::floor(x) * 2}, true); b.ret(x); });
  for (auto [r, c] : {std::pair{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {2, 2}}) {
    const std::string n = std::to_string(r) + "x" + std::to_string(c);
    o.push_back({"mat_in_" + n, [=](FB& b) { auto m = b.m("m", r, c); S e = I(0); int q = 1; for (const S& s : m.to_vector()) e = e + s * I(q++) * s; b.ret(e); }, false});
    o.push_back({"mat_out_" + n, [=](FB& b) { auto m = b.m("m", r, c); S x = b.f("x"); b.out("o0", mat(r, c), A{m * x}); b.out("o1", mat(c, r), A{m.transposed()}); }, false});
    o.push_back({"mat_copy_" + n, [=](FB& b) { auto m = b.m("m", r, c); b.out("o0", mat(r, c), A{m}); b.out("o1", mat(r, c), A{m}); }, false});
    o.push_back({"mat_opt_" + n, [=](FB& b) { auto m = b.m("m", r, c); S x = b.f("x"); b.out("o0", mat(r, c), A{m * x}, true); b.out("o1", mat(r, c), A{m * x}, true); b.ret(x); }, false});
    o.push_back({"mat_ret_" + n, [=](FB& b) { auto m = b.m("m", r, c); S x = b.f("x"); b.ret(mat(r, c), A{m * x}); }, true});
    o.push_back({"mat_cond_" + n, [=](FB& b) { auto m = b.m("m", r, c); S x = b.f("x"), y = b.f("y"); b.out("o0", mat(r, c), A{wf::where(x < y, m * x, m * y)}); }, false});
    o.push_back({"mat_ret_opt_" + n, [=](FB& b) { auto m = b.m("m", r, c); S x = b.f("x"); b.out("o0", mat(r, c), A{m * x}, true); b.ret(mat(r, c), A{m * x}); }, true});
  }
  put("mat_mul", [=](FB& b) { auto m = b.m("m", 2, 3), n = b.m("n", 3, 2); b.out("o0", mat(2, 2), A{m * n}); b.out("o1", mat(3, 3), A{n * m}, true); });
  put("mat_int_elems", [=](FB& b) { S k = b.i("k"); S x = b.f("x"); b.out("o0", mat(2, 2), A{wf::make_matrix(2, 2, k, I(1), wf::floor(x), x)}); });
  put("mat_const", [=](FB& b) { b.out("o0", mat(2, 2), A{wf::make_matrix(2, 2, I(1), I(0), I(-2), Q(1, 2))}); });
  put("mat_ret_out_same", [=](FB& b) { S x = b.f("x"); auto v = wf::make_vector(x * 2, x * x); b.out("o0", mat(2, 1), A{v}); b.out("o1", mat(2, 1), A{v}); b.ret(x); });
  // structs
  put("point_in", [=](FB& b) { auto p = b.c("p", b.t.point); b.ret(FB::el(p, 0) * 2 - FB::el(p, 1)); });
  put("outer_in", [=](FB& b) { auto p = b.c("p", b.t.outer); S e = I(0); for (std::size_t i = 0; i < b.t.outer.total_size(); ++i) e = e + FB::el(p, i) * I(static_cast<int>(i) + 1) * FB::el(p, (i * 3 + 1) % b.t.outer.total_size()); b.ret(e); });
  put("outer_each", [=](FB& b) { auto p = b.c("p", b.t.outer); b.out("o0", mat(2, 3), A{wf::make_matrix(2, 3, FB::el(p, 1), FB::el(p, 2), FB::el(p, 3), FB::el(p, 4), FB::el(p, 5), FB::el(p, 6))}); b.out("o1", mat(3, 1), A{wf::make_vector(FB::el(p, 9), FB::el(p, 10), FB::el(p, 11))}); b.out("o2", N, A{FB::el(p, 14)}); b.out("o3", mat(4, 1), A{wf::make_vector(FB::el(p, 0), FB::el(p, 8), FB::el(p, 12), FB::el(p, 13))}); b.ret(N, A{FB::el(p, 7)}); });
  put("point_ret", [=](FB& b) { S x = b.f("x"), y = b.f("y"); b.ret(wf::type_variant{b.t.point}, A{wf::custom_type_construction::create(b.t.point, {y, x * y})}); });
  put("point_out", [=](FB& b) { S x = b.f("x"), y = b.f("y"); auto e = wf::custom_type_construction::create(b.t.point, {y, x * y}); b.out("o0", wf::type_variant{b.t.point}, A{e}); b.ret(x * y); });
  put("point_out_twice", [=](FB& b) { S x = b.f("x"), y = b.f("y"); auto e = wf::custom_type_construction::create(b.t.point, {y, x * y}); b.out("o0", wf::type_variant{b.t.point}, A{e}); b.out("o1", wf::type_variant{b.t.point}, A{e}); });
  put("point_out_ret", [=](FB& b) { S x = b.f("x"), y = b.f("y"); auto e = wf::custom_type_construction::create(b.t.point, {y, x * y}); b.out("o0", wf::type_variant{b.t.point}, A{e}); b.ret(wf::type_variant{b.t.point}, A{e}); });
  put("point_opt_twice", [=](FB& b) { S x = b.f("x"), y = b.f("y"); auto e = wf::custom_type_construction::create(b.t.point, {y, x * y}); b.out("o0", wf::type_variant{b.t.point}, A{e}, true); b.out("o1", wf::type_variant{b.t.point}, A{e}, true); b.ret(x); });
  put("point_int_fields", [=](FB& b) { S k = b.i("k"); b.ret(wf::type_variant{b.t.point}, A{wf::custom_type_construction::create(b.t.point, {k, I(2)})}); });
  put("point_ret_arg", [=](FB& b) { auto p = b.c("p", b.t.point); b.ret(wf::type_variant{b.t.point}, A{p}); });
  put("point_out_arg", [=](FB& b) { auto p = b.c("p", b.t.point); S x = b.f("x"); b.out("o0", wf::type_variant{b.t.point}, A{p}); b.ret(x); });
  put("point_opt_arg", [=](FB& b) { auto p = b.c("p", b.t.point); S x = b.f("x"); b.out("o0", wf::type_variant{b.t.point}, A{p}, true); b.ret(x); });
  put("point_swap", [=](FB& b) { auto p = b.c("p", b.t.point); b.ret(wf::type_variant{b.t.point}, A{wf::custom_type_construction::create(b.t.point, {FB::el(p, 1), FB::el(p, 0)})}); });
  put("point_rebuild", [=](FB& b) { auto p = b.c("p", b.t.point); b.out("o0", wf::type_variant{b.t.point}, A{wf::custom_type_construction::create(b.t.point, {FB::el(p, 0), FB::el(p, 1)})}); });
  auto inner = [](FB& b, const S& x, const S& y, const S& k) { return wf::custom_type_construction::create(b.t.inner, {x, y, x * y, x + y, x - y, I(2), k, -y}); };
  put("inner_ret", [=](FB& b) { S x = b.f("x"), y = b.f("y"), k = b.i("k"); b.ret(wf::type_variant{b.t.inner}, A{inner(b, x, y, k)}); }, true);
  put("inner_out", [=](FB& b) { S x = b.f("x"), y = b.f("y"), k = b.i("k"); b.out("o0", wf::type_variant{b.t.inner}, A{inner(b, x, y, k)}); b.ret(x); }, true);
  put("inner_opt", [=](FB& b) { S x = b.f("x"), y = b.f("y"), k = b.i("k"); b.out("o0", wf::type_variant{b.t.inner}, A{inner(b, x, y, k)}, true); b.ret(wf::type_variant{b.t.inner}, A{inner(b, y, x, k * 2)}); }, true);
  put("inner_cond", [=](FB& b) { S x = b.f("x"), y = b.f("y"), k = b.i("k"); b.ret(wf::type_variant{b.t.inner}, A{inner(b, wf::where(x < y, x, y * y), wf::where(x < y, wf::sin(x), y), wf::where(y < x, k, k * k))}); }, true);
  put("outer_ret", [=](FB& b) {
    S x = b.f("x"), y = b.f("y"), k = b.i("k");
    std::vector<S> e;
    for (int i = 0; i < 15; ++i) e.push_back(i == 7 || i == 14 ? k * I(i) : i % 3 == 0 ? x * I(i) : i % 3 == 1 ? y * I(i) : x * y + I(i));
    b.ret(wf::type_variant{b.t.outer}, A{wf::custom_type_construction::create(b.t.outer, e)});
  }, true);
  put("outer_pass", [=](FB& b) {
    auto p = b.c("p", b.t.outer);
    std::vector<S> e;
    for (std::size_t i = 0; i < 15; ++i) e.push_back(FB::el(p, i) * I(2));
    b.out("o0", wf::type_variant{b.t.outer}, A{wf::custom_type_construction::create(b.t.outer, e)});
  }, true);
  put("two_structs", [=](FB& b) { auto p = b.c("p", b.t.point), q = b.c("q", b.t.point); b.ret(FB::el(p, 0) * FB::el(q, 1) - FB::el(q, 0) * FB::el(p, 1)); });
  // external functions
  put("ext_s", [=](FB& b) { S x = b.f("x"), y = b.f("y"); b.ret(std::get<S>(inv(b.t.e1, {A{y}, A{x}})) * x); });
  put("ext_s_int_arg", [=](FB& b) { S k = b.i("k"), y = b.f("y"); b.ret(std::get<S>(inv(b.t.e1, {A{k}, A{y}}))); });
  put("ext_s_const_arg", [=](FB& b) { S y = b.f("y"); b.ret(std::get<S>(inv(b.t.e1, {A{I(2)}, A{y}})) + std::get<S>(inv(b.t.e1, {A{y}, A{Q(1, 2)}}))); });
  put("ext_s_twice", [=](FB& b) { S x = b.f("x"), y = b.f("y"); const S a = std::get<S>(inv(b.t.e1, {A{y}, A{x}})); b.ret(std::get<S>(inv(b.t.e1, {A{a}, A{a * x}})) - a); });
  put("ext_i", [=](FB& b) { S k = b.i("k"), y = b.f("y"); b.ret(std::get<S>(inv(b.t.ei, {A{k}, A{y}})) * y + k); });
  put("ext_i_ret", [=](FB& b) { S k = b.i("k"), y = b.f("y"); b.ret(N, A{std::get<S>(inv(b.t.ei, {A{k * 2}, A{y * 2}})) + k}); });
  put("ext_cond", [=](FB& b) { S x = b.f("x"), y = b.f("y"); b.ret(wf::where(x < y, std::get<S>(inv(b.t.e1, {A{y}, A{x}})), std::get<S>(inv(b.t.e1, {A{x}, A{y}})))); });
  put("ext_in_cond", [=](FB& b) { S x = b.f("x"), y = b.f("y"); b.ret(wf::where(std::get<S>(inv(b.t.e1, {A{y}, A{x}})) < I(0), x, y * 2)); });
  put("ext_m_arg", [=](FB& b) { auto m = b.m("m", 2, 3); S x = b.f("x"); b.out("o0", mat(3, 2), A{std::get<wf::matrix_expr>(inv(b.t.em, {A{m}, A{x}}))}); }, true);
  put("ext_m_ret", [=](FB& b) { auto m = b.m("m", 2, 3); S x = b.f("x"); b.ret(mat(3, 2), A{std::get<wf::matrix_expr>(inv(b.t.em, {A{m}, A{x}}))}); }, true);
  put("ext_m_el", [=](FB& b) { S x = b.f("x"), y = b.f("y"); auto r = std::get<wf::matrix_expr>(inv(b.t.em, {A{wf::make_matrix(2, 3, x, y, x * y, I(1), x - y, Q(1, 2))}, A{y}})); b.ret(r(0, 1) * r(2, 0) - r(1, 1)); }, true);
  put("ext_m_expr", [=](FB& b) { auto m = b.m("m", 2, 3); S x = b.f("x"); auto r = std::get<wf::matrix_expr>(inv(b.t.em, {A{m * x}, A{x + 1}})); b.out("o0", mat(3, 2), A{r * x}); b.out("o1", mat(2, 3), A{r.transposed()}, true); }, true);
  put("ext_t", [=](FB& b) { auto p = b.c("p", b.t.point); auto v = b.m("v", 3, 1); S x = b.f("x"); auto r = std::get<wf::compound_expr>(inv(b.t.et, {A{x}, A{p}, A{v}})); b.ret(FB::el(r, 0) + FB::el(r, 5) * FB::el(r, 7) - FB::el(r, 6)); }, true);
  put("ext_t_ret", [=](FB& b) { auto p = b.c("p", b.t.point); auto v = b.m("v", 3, 1); S x = b.f("x"); b.ret(wf::type_variant{b.t.inner}, A{std::get<wf::compound_expr>(inv(b.t.et, {A{x}, A{p}, A{v}}))}); }, true);
  put("ext_t_out", [=](FB& b) { auto p = b.c("p", b.t.point); auto v = b.m("v", 3, 1); S x = b.f("x"); b.out("o0", wf::type_variant{b.t.inner}, A{std::get<wf::compound_expr>(inv(b.t.et, {A{x}, A{p}, A{v}}))}); b.ret(x); }, true);
  put("ext_t_built", [=](FB& b) { S x = b.f("x"), y = b.f("y"); auto r = std::get<wf::compound_expr>(inv(b.t.et, {A{x}, A{wf::custom_type_construction::create(b.t.point, {y, x})}, A{wf::make_vector(x, I(1), y)}})); b.ret(FB::el(r, 2) * y); }, true);
  put("ext_chain", [=](FB& b) { S x = b.f("x"), y = b.f("y"); auto r = std::get<wf::compound_expr>(inv(b.t.et, {A{x}, A{wf::custom_type_construction::create(b.t.point, {y, x})}, A{wf::make_vector(x, I(1), y)}})); auto q = std::get<wf::compound_expr>(inv(b.t.ep, {A{r}})); b.ret(FB::el(q, 1) - FB::el(q, 0) * x); }, true);
  put("ext_p_arg", [=](FB& b) { auto q = b.c("q", b.t.inner); auto p = std::get<wf::compound_expr>(inv(b.t.ep, {A{q}})); b.ret(wf::type_variant{b.t.point}, A{p}); });
  put("ext_p_both", [=](FB& b) { auto q = b.c("q", b.t.inner); auto p = std::get<wf::compound_expr>(inv(b.t.ep, {A{q}})); b.out("o0", FB::el(p, 0)); b.ret(wf::type_variant{b.t.point}, A{p}); });
  return o;
}

// G: sizes. Deep nesting, long sums and products, long chains of shared values, many arguments, many
// outputs (also optional ones), larger matrices, many structs.
inline void size_family(bool thorough, const Visit& vis) {
  const Args& a = proto();
  const auto cs = conditions(a);
  const S x = a.v.x, y = a.v.y, z = a.v.z;
  const std::vector<S> lv{x, y * z, wf::sin(x), I(2), x * y, a.k * 2, wf::floor(z), x + y, wf::cos(y) * x, a.v.r, -z, wf::pow(x, I(2)), a.l, Q(1, 3), a.v.s * y};
  auto L = [&](std::size_t i) { return lv[i % lv.size()]; };
  auto C = [&](std::size_t i) { return cs[i % cs.size()]; };
  std::size_t id = 0;
  auto one = [&](const char* f, std::vector<S> es) { vis(std::string("G") + f + std::to_string(id++), scalar_body(std::move(es))); };
  for (std::size_t n = 3; n <= (thorough ? 9u : 6u); ++n)
    for (std::size_t q = 0; q < (thorough ? 8u : 3u); ++q) {
      S els = L(q), thn = L(q + 1), alt = L(q + 2), sum = I(0), prod = L(q), cond = L(q + 3);
      for (std::size_t i = 0; i < n; ++i) {
        els = wf::where(C(i * 3 + q), L(i + q), els);
        thn = wf::where(C(i * 7 + q), thn, L(i * 2 + q));
        alt = i % 2 ? wf::where(C(i + q), alt, L(i * 3)) + L(i) : wf::where(C(i + q), L(i * 5 + 1), alt * L(i + 2));
        sum = sum + wf::where(C(i + 2 * q), L(i), L(i + 3 + q));
        prod = prod * wf::where(C(i * 3 + q), L(i + 1), L(i + q));
        if (i < 5) cond = wf::where(cond < L(i + 4), L(i + q), cond + 1);
      }
      one("n", {els});
      one("n", {thn});
      one("n", {alt});
      one("n", {sum});
      one("n", {prod});
      one("n", {cond});
      one("n", {els, thn, alt, sum * els, cond});
    }
  for (std::size_t n = 5; n <= (thorough ? 24u : 17u); n += thorough ? 1 : 2)
    for (std::size_t q = 1; q <= (thorough ? 7u : 4u); ++q) {
      S sum = I(0), prod = I(1), both = I(0), poly = I(0), chain = L(q), chain2 = x + static_cast<int>(q);
      for (std::size_t i = 0; i < n; ++i) {
        sum = sum + L(i * q) * L(i + q);
        if (i % 3 != 2) prod = prod * (i % 2 ? L(i * q + 1) : L(i + q) / 2);
        both = both - L(i) * L(i + 1) * L(i * q);
        poly = poly + wf::pow(x, I(static_cast<int>(i))) * I(static_cast<int>(i * q) % 7 - 3) * (i % 4 == 1 ? y : Q(1, 16));
        if (i < 12) {
          chain = wf::sin(chain) * L(i + q) + chain / 4;
          chain2 = i % 2 ? wf::cos(chain2 * y) + chain2 : wf::where(C(i + q), chain2, wf::sin(chain2) - L(i));
        }
      }
      one("s", {sum});
      one("s", {prod});
      one("s", {both, sum * x});
      one("s", {poly});
      one("s", {chain});
      one("s", {chain2});
      one("s", {chain + chain2, chain * y, sum + prod, -both});
    }
  for (std::size_t n = 4; n <= 9; ++n)
    for (std::size_t q = 0; q < (thorough ? 6u : 2u); ++q) {
      std::vector<S> es;
      for (std::size_t i = 0; i < n; ++i) es.push_back(i % 3 == 0 ? wf::where(C(i / 3 + q), L(i + q), es.empty() ? L(q + 1) : es.back() * 2) : i % 3 == 1 ? es.back() + L(i + q) * L(q) : L(i * 3 + q) * L(i + q));
      one("o", es);
    }
  static const char* args[] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "a10", "a11", "a12", "a13"};
  static const char* outs[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9"};
  for (std::size_t n = 3; n <= 14; n += thorough ? 1 : 3)
    for (std::size_t ints : {0, 3, 2}) {
      vis("Ga" + std::to_string(id++), [=](FB& b) {
        std::vector<S> v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(ints && i % ints == 1 ? b.i(args[i]) : b.f(args[i]));
        S e = I(0);
        for (std::size_t i = 0; i < n; ++i) e = e + v[i] * v[(i + 1) % n] * static_cast<int>(i + 1);
        b.out(outs[0], wf::where(v[0] < v[n - 1], v[n - 1] - v[0] * 2, e));
        b.ret(e * 2 - v[n / 2]);
      });
    }
  for (std::size_t n = 4; n <= (thorough ? 7u : 5u); ++n)
    for (std::size_t q = 0; q < (thorough ? 6u : 3u); ++q) {
      vis("Gp" + std::to_string(id++), [=](FB& b) {
        Args w(b);
        for (std::size_t i = 0; i < n; ++i) {
          const bool opt = q == 0 || (i + q) % 3 != 0;
          const S e = wf::where(conditions(w)[(i / 2 + q) % 10], w.v.x * static_cast<int>(i + 2), wf::sin(w.v.y) + static_cast<int>(i));
          if ((i + q) % 4 == 1) b.out(outs[i], wf::type_variant{wf::matrix_type(3, 1)}, wf::any_expression{wf::make_vector(e, w.v.z, e * e)}, opt);
          else if ((i + q) % 4 == 2) b.out(outs[i], wf::type_variant{b.t.point}, wf::any_expression{wf::custom_type_construction::create(b.t.point, {e, w.v.z * e})}, opt);
          else b.out(outs[i], e, opt);
        }
        if (q % 2) b.ret(w.v.x * w.v.y);
      });
    }
  for (auto [r, c] : {std::pair{4, 4}, {1, 6}, {6, 1}, {5, 3}, {3, 7}, {1, 2}}) {
    const std::string n = std::to_string(r) + "x" + std::to_string(c);
    auto mat = [](int p, int q) { return wf::type_variant{wf::matrix_type(p, q)}; };
    vis("Gm_in_" + n, [=, r = r, c = c](FB& b) { auto m = b.m("m", r, c); S e = I(0); int q = 1; for (const S& s : m.to_vector()) e = e + s * I(q++); b.ret(e); });
    vis("Gm_out_" + n, [=, r = r, c = c](FB& b) { auto m = b.m("m", r, c); S x = b.f("x"); b.out("o0", mat(r, c), wf::any_expression{m * x}); b.out("o1", mat(c, r), wf::any_expression{m.transposed()}); });
    vis("Gm_opt_" + n, [=, r = r, c = c](FB& b) { auto m = b.m("m", r, c); S x = b.f("x"); b.out("o0", mat(c, r), wf::any_expression{m.transposed() * 2}, true); b.out("o1", mat(r, c), wf::any_expression{wf::where(x < m.to_vector()[0], m, m * x)}, true); b.ret(x); });
    vis("Gm_gram_" + n, [=, r = r, c = c](FB& b) { auto m = b.m("m", r, c); b.out("o0", mat(r, r), wf::any_expression{m * m.transposed()}); });
  }
  for (std::size_t n = 2; n <= 5; ++n)
    vis("Gt" + std::to_string(id++), [=](FB& b) {
      std::vector<wf::compound_expr> ps;
      for (std::size_t i = 0; i < n; ++i) ps.push_back(i % 3 == 2 ? b.c(args[i], b.t.outer) : b.c(args[i], b.t.point));
      S e = I(0);
      for (std::size_t i = 0; i < n; ++i) e = e + FB::el(ps[i], 0) * FB::el(ps[(i + 1) % n], 1) * static_cast<int>(i + 1);
      b.out("o0", wf::type_variant{b.t.point}, wf::any_expression{wf::custom_type_construction::create(b.t.point, {e, FB::el(ps[n - 1], 1)})});
      b.out("o1", wf::type_variant{b.t.point}, wf::any_expression{wf::custom_type_construction::create(b.t.point, {FB::el(ps[0], 1), e * 2})}, true);
      b.ret(e);
    });
}

inline void all_functions(bool thorough, const Visit& vis) {
  for (const TypeCase& t : type_family()) vis("C_" + t.key, t.body);
  optional_family(thorough, vis);
  size_family(thorough, vis);
  std::size_t i = 0;
  for (const S& e : scalar_family(thorough)) vis("A" + std::to_string(i++) + ": " + e.to_string(), scalar_body({e}));
  i = 0;
  auto many = [&](const char* f, const std::vector<std::vector<S>>& l) {
    for (const auto& es : l) {
      std::string k = f + std::to_string(i++) + ": ";
      for (const S& e : es) k += (k.back() == ' ' ? "" : " ; ") + e.to_string();
      vis(k, scalar_body(es));
    }
  };
  many("B", conditional_family(thorough));
  i = 0;
  many("E", sum_family(thorough));
  i = 0;
  many("F", negation_family(thorough));
}
}  // namespace h
