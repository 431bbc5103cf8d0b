// Expression pools shared by the harnesses.
#pragma once
#include <unordered_set>

#include "common.h"
#include "wf/code_generation/argument.h"
#include "wf/external_function.h"
#include "wf/matrix_functions.h"

namespace h {

struct Fn1 {
  const char* name;
  S (*build)(const S&);
  wf::built_in_function f;
};
inline S b_sqrt(const S& a) { return wf::sqrt(a); }
inline const std::vector<Fn1>& fn1() {
  using F = wf::built_in_function;
  static const std::vector<Fn1> t{
      {"log", wf::log, F::log},       {"exp", wf::exp, F::exp},       {"cos", wf::cos, F::cos},       {"sin", wf::sin, F::sin},
      {"tan", wf::tan, F::tan},       {"acos", wf::acos, F::arccos},  {"asin", wf::asin, F::arcsin},  {"atan", wf::atan, F::arctan},
      {"cosh", wf::cosh, F::cosh},    {"sinh", wf::sinh, F::sinh},    {"tanh", wf::tanh, F::tanh},    {"acosh", wf::acosh, F::arccosh},
      {"asinh", wf::asinh, F::arcsinh}, {"atanh", wf::atanh, F::arctanh}, {"abs", wf::abs, F::abs},   {"signum", wf::signum, F::signum},
      {"floor", wf::floor, F::floor}};
  return t;
}

struct Op2 {
  const char* name;
  S (*build)(const S&, const S&);
  V (*mean)(const V&, const V&);
};
inline S b_add(const S& a, const S& b) { return a + b; }
inline S b_sub(const S& a, const S& b) { return a - b; }
inline S b_mul(const S& a, const S& b) { return a * b; }
inline S b_div(const S& a, const S& b) { return a / b; }
inline S b_pow(const S& a, const S& b) { return wf::pow(a, b); }
inline V m_sub(const V& a, const V& b) { return ref::add(a, ref::neg(b)); }
inline V m_div(const V& a, const V& b) { return ref::mul(a, ref::inv(b)); }
inline const std::vector<Op2>& op2() {
  static const std::vector<Op2> t{{"+", b_add, ref::add}, {"-", b_sub, m_sub}, {"*", b_mul, ref::mul}, {"/", b_div, m_div}, {"**", b_pow, ref::pow_}};
  return t;
}

// An ordered set of distinct expressions.
class Pool {
 public:
  std::vector<S> v;
  bool add(const S& e) {
    if (!seen_.insert(e).second) return false;
    v.push_back(e);
    return true;
  }
  template <typename F>
  void try_add(F&& f) {
    try {
      add(f());
    } catch (const std::exception&) {
    }
  }
  void add_all(const std::vector<S>& w) {
    for (const S& e : w) add(e);
  }
  std::size_t size() const { return v.size(); }

 private:
  std::unordered_set<S, ref::Hash, ref::Eq> seen_;
};

// All binary operations on members of a and b, both ways.
inline void grow2(Pool& out, const std::vector<S>& a, const std::vector<S>& b) {
  for (const S& u : a)
    for (const S& w : b)
      for (const Op2& op : op2()) {
        out.try_add([&] { return op.build(u, w); });
        out.try_add([&] { return op.build(w, u); });
      }
}
inline void grow1(Pool& out, const std::vector<S>& a) {
  for (const S& u : a) {
    for (const Fn1& f : fn1()) out.try_add([&] { return f.build(u); });
    out.try_add([&] { return wf::sqrt(u); });
    out.try_add([&] { return -u; });
  }
}

// Opaque nodes: symbolic functions, derivative / substitution expressions, fields of custom types,
// results of external functions.
struct Opaque {
  wf::symbolic_function f{"f"}, g{"g"}, k{"k"};
  wf::custom_type inner{"Inner", {wf::struct_field{"a", wf::scalar_type(wf::numeric_primitive_type::floating_point)}, wf::struct_field{"m", wf::matrix_type(2, 2)}}, std::type_index(typeid(int))};
  wf::custom_type outer{"Outer", {wf::struct_field{"u", wf::matrix_type(2, 1)}, wf::struct_field{"s", wf::type_variant{inner}}, wf::struct_field{"w", wf::scalar_type(wf::numeric_primitive_type::floating_point)}}, std::type_index(typeid(double))};
  wf::compound_expr arg{wf::create_custom_type_argument(outer, "obj")};
  wf::external_function ext_s{"ext_s", {wf::argument{"p0", wf::scalar_type(wf::numeric_primitive_type::floating_point), wf::argument_direction::input, 0}}, wf::scalar_type(wf::numeric_primitive_type::floating_point)};
  wf::external_function ext_m{"ext_m", {wf::argument{"p0", wf::matrix_type(2, 1), wf::argument_direction::input, 0}, wf::argument{"p1", wf::scalar_type(wf::numeric_primitive_type::floating_point), wf::argument_direction::input, 1}}, wf::matrix_type(2, 1)};
  S field(std::size_t i) const { return wf::compound_expression_element::create(arg, i); }
  S call_s(const S& a) const { return std::get<S>(ext_s.create_invocation({wf::any_expression{a}})); }
  wf::matrix_expr call_m(const S& a, const S& b, const S& c) const {
    return std::get<wf::matrix_expr>(ext_m.create_invocation({wf::any_expression{wf::make_vector(a, b)}, wf::any_expression{c}}));
  }
};

// Calls f(scalar) for every scalar sub-expression (parents first; stops below a node if f returns false).
template <typename F>
void walk(const S& e, F& f);
template <typename F>
void walk(const wf::boolean_expr& e, F& f);
template <typename F>
void walk(const wf::matrix_expr& e, F& f);
template <typename F>
void walk(const wf::compound_expr& e, F& f);
template <typename F>
void walk(const wf::any_expression& e, F& f) {
  std::visit([&](const auto& x) { walk(x, f); }, e);
}
template <typename... Ts, typename F>
void walk_all(const std::tuple<Ts...>& t, F& f) {
  std::apply([&](const auto&... x) { (walk(x, f), ...); }, t);
}
template <typename T, typename F>
void walk_all(const T& t, F& f) {
  if constexpr (std::is_same_v<T, S> || std::is_same_v<T, wf::boolean_expr> || std::is_same_v<T, wf::matrix_expr> || std::is_same_v<T, wf::compound_expr>) {
    walk(t, f);
  } else {
    for (const auto& c : t) walk(c, f);
  }
}
template <typename X, typename F>
void walk_children(const X& e, F& f) {
  wf::visit(e, [&](const auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (!T::is_leaf_node) {
      walk_all(x.children(), f);
    }
  });
}
template <typename F>
void walk(const S& e, F& f) {
  if (f(e)) walk_children(e, f);
}
template <typename F>
void walk(const wf::boolean_expr& e, F& f) {
  walk_children(e, f);
}
template <typename F>
void walk(const wf::matrix_expr& e, F& f) {
  walk_children(e, f);
}
template <typename F>
void walk(const wf::compound_expr& e, F& f) {
  walk_children(e, f);
}
template <typename X>
bool contains(const X& e, const S& what) {
  bool found = false;
  auto f = [&](const S& q) {
    if (q.is_identical_to(what)) found = true;
    return !found;
  };
  walk(e, f);
  return found;
}
template <typename N, typename X>
bool contains_type(const X& e) {
  bool found = false;
  auto f = [&](const S& q) {
    if (q.is_type<N>()) found = true;
    return !found;
  };
  walk(e, f);
  return found;
}

inline S fnv(const wf::symbolic_function& f, const std::vector<S>& a) {
  return wf::make_expr<wf::symbolic_function_invocation>(f, wf::symbolic_function_invocation::container_type(a.begin(), a.end()));
}
inline S dv(const S& f, const S& a, int n = 1) { return wf::derivative::create(f, a, n); }
inline S sub_(const S& in, const S& a, const S& b) { return wf::substitution::create(in, a, b); }

// Numbers and constants.
inline std::vector<S> number_leaves() {
  return {I(0), I(1), I(-1), I(2), I(-2), I(3), I(5), Q(1, 2), Q(-1, 2), Q(1, 3), Q(2, 3), Q(-7, 5), S(0.5), S(-1.5), S(2.25), wf::constants::pi, wf::constants::euler, wf::constants::imaginary_unit};
}
// Leaves that take a value from a context.
inline std::vector<S> symbol_leaves(const Vars& v) { return {v.x, v.y, v.z, v.r, v.s, v.p, v.n}; }

// Every kind of node, with children that overlap from one expression to the next.
inline std::vector<S> kinds(const Vars& v, const Opaque& o) {
  const S im = wf::constants::imaginary_unit;
  Pool p;
  p.add_all({v.x + v.y, v.x - v.y, v.x + 1, v.x * 2, v.x * v.y, v.x / v.y, v.y / v.x, -v.x, v.x + v.y + v.z, v.x * v.y * v.z, v.x * 2 + v.y * 3, v.x + v.y * 2 + 1, v.x * v.x + v.x, (v.x + v.y) * v.z, (v.x + v.y) * (v.x - v.y), (v.x + 1) * 2, 1 / v.x, 1 / (v.x + v.y), v.x / 2, v.x * Q(2, 3), v.x * S(0.5), v.x + S(1.5), -v.x * v.y, v.x * im, v.x + im});
  p.add_all({wf::pow(v.x, I(2)), wf::pow(v.x, I(3)), wf::pow(v.x, I(-1)), wf::pow(v.x, Q(1, 2)), wf::pow(v.x, Q(-1, 2)), wf::pow(v.x, Q(3, 2)), wf::pow(v.x, v.y), wf::pow(v.y, v.x), wf::pow(v.x, v.x), wf::pow(I(2), v.x), wf::pow(I(2), Q(1, 2)), wf::pow(I(3), Q(1, 3)), wf::pow(I(-1), Q(1, 3)), wf::pow(v.x + v.y, I(2)), wf::pow(v.x + v.y, Q(1, 2)), wf::pow(v.x * v.y, Q(1, 2)), wf::pow(wf::pow(v.x, v.y), I(2)), wf::pow(wf::pow(v.x, I(2)), v.y), wf::pow(v.x, v.y + 1), wf::pow(v.x, v.y * 2), wf::pow(v.x, S(1.5)), wf::pow(v.p, v.r), wf::pow(wf::pow(v.x, v.y), v.z), wf::pow(v.x, wf::pow(v.y, v.z)), wf::pow(-v.x, v.y), wf::pow(im, v.x), wf::pow(v.x / v.y, I(2)), wf::pow(Q(1, 2), v.x)});
  for (const Fn1& f : fn1()) {
    p.try_add([&] { return f.build(v.x); });
    p.try_add([&] { return f.build(v.x + v.y); });
    p.try_add([&] { return f.build(v.r * 2); });
    p.try_add([&] { return f.build(wf::pow(v.x, I(2))); });
  }
  p.add_all({wf::atan2(v.r, v.s), wf::atan2(v.s, v.r), wf::atan2(v.r + 1, v.s * 2), wf::where(v.r < v.s, v.x, v.y), wf::where(v.r < v.s, v.y, v.x), wf::where(v.r <= v.s, v.x, v.y), wf::where(v.r == v.s, v.x, v.y), wf::where(v.s < v.r, v.x, v.y), wf::where(v.r < I(0), v.x * 2, v.y + 1), wf::where(v.r < I(1), wf::where(v.s < I(0), v.x, v.y), v.z), wf::where(v.r < I(0), wf::pow(v.x, I(2)), wf::where(I(1) < v.r, v.y, I(0))), wf::max(v.r, v.s), wf::min(v.r, v.s), wf::max(v.r, I(0)), wf::iverson(v.r < v.s), wf::iverson(v.r == v.s), wf::iverson(v.r <= I(2)) * v.x, wf::where(v.r < v.s, v.x, v.y) + wf::where(v.r < v.s, v.y, v.x), wf::where(v.r < v.s, v.x, v.y) * v.x});
  p.add_all({wf::make_unevaluated(v.x + v.y), wf::make_unevaluated(v.x + v.y) * 2, wf::make_unevaluated(v.x * v.y) + v.x, wf::stop_diff(v.x), wf::stop_diff(v.x * v.y) + v.x});
  const S f1 = fnv(o.f, {v.x}), fxy = fnv(o.f, {v.x, v.y});
  p.add_all({f1, fxy, fnv(o.f, {v.y, v.x}), fnv(o.g, {v.x, v.x}), fnv(o.g, {v.x + v.y, v.z}), fnv(o.f, {f1}), fnv(o.g, {f1, v.x}), f1 * v.x, wf::pow(f1, I(2)) + fxy, dv(f1, v.x), dv(f1, v.x, 2), dv(fxy, v.x), dv(fxy, v.y), dv(dv(fxy, v.x), v.y), sub_(fnv(o.f, {v.y}), v.y, v.x * 2), sub_(dv(fnv(o.f, {v.y}), v.y), v.y, v.x + v.z), sub_(fxy, v.x, v.z)});
  p.add_all({o.field(0), o.field(1), o.field(3), o.field(0) * v.x + o.field(1), o.call_s(v.x), o.call_s(v.x + v.y) * v.x, o.call_m(v.x, v.y, I(1))[0], o.call_m(v.x, v.y, I(1))[1], o.call_m(v.y, v.x, I(1))[0], o.call_m(v.x, v.y, v.z)[1] + v.x});
  return p.v;
}
}  // namespace h
