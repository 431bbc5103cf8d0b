// C20 (C++ interface): structs registered with custom_type_builder, for every combination of field types.
#include "common.h"
#include "explore.h"
#include "wf/code_generation/declare_external_function.h"
#include "wf/code_generation/function_evaluator.h"
#include "wf/compound_expression.h"
#include "wf/functions.h"
using namespace wf;

namespace {
template <typename T>
struct Default {
  static T make() { return T{}; }
};
template <>
struct Default<scalar_expr> {
  static scalar_expr make() { return scalar_expr(0); }
};
template <index_t R, index_t C>
struct Default<type_annotations::static_matrix<R, C>> {
  static matrix_expr make() { return make_zeros(R, C); }
};
template <numeric_primitive_type N>
struct Default<type_annotations::annotated_scalar_expr<N>> {
  static type_annotations::annotated_scalar_expr<N> make() { return scalar_expr(0); }
};
using F = scalar_expr;
using I = type_annotations::int_scalar_expr;
using M31 = type_annotations::static_matrix<3, 1>;
using M23 = type_annotations::static_matrix<2, 3>;

// The order of registration is a parameter: 0 is the order of declaration.
template <int Order, typename A, typename B>
struct S2 {
  A z = Default<A>::make();
  B b = Default<B>::make();
};
template <int Order, typename A, typename B, typename C>
struct S3 {
  A z = Default<A>::make();
  B b = Default<B>::make();
  C y = Default<C>::make();
};

// ---- my own walk, in order of registration ------------------------------------------------------
struct Leaf {
  std::string path;
  bool integer;
};
template <typename T>
struct Walk;
template <>
struct Walk<F> {
  static void names(const std::string& p, std::vector<Leaf>& o) { o.push_back({p, false}); }
  static void values(const F& v, std::vector<scalar_expr>& o) { o.push_back(v); }
  static void fill(F& v, std::vector<scalar_expr>::const_iterator& i) { v = *i++; }
  static type_variant type() { return scalar_type(numeric_primitive_type::floating_point); }
};
template <>
struct Walk<I> {
  static void names(const std::string& p, std::vector<Leaf>& o) { o.push_back({p, true}); }
  static void values(const I& v, std::vector<scalar_expr>& o) { o.push_back(v); }
  static void fill(I& v, std::vector<scalar_expr>::const_iterator& i) { v = *i++; }
  static type_variant type() { return scalar_type(numeric_primitive_type::integral); }
};
template <index_t R, index_t C>
struct Walk<type_annotations::static_matrix<R, C>> {
  using T = type_annotations::static_matrix<R, C>;
  static void names(const std::string& p, std::vector<Leaf>& o) {
    for (int r = 0; r < R; ++r)
      for (int c = 0; c < C; ++c) o.push_back({p + "[" + std::to_string(r) + ", " + std::to_string(c) + "]", false});
  }
  static void values(const T& v, std::vector<scalar_expr>& o) {
    for (int r = 0; r < R; ++r)
      for (int c = 0; c < C; ++c) o.push_back(v(r, c));
  }
  static void fill(T& v, std::vector<scalar_expr>::const_iterator& i) {
    std::vector<scalar_expr> e(i, i + R * C);
    i += R * C;
    v = matrix_expr::create(R, C, e);
  }
  static type_variant type() { return matrix_type(R, C); }
};
template <int O, typename A, typename B>
struct Walk<S2<O, A, B>> {
  using T = S2<O, A, B>;
  static void names(const std::string& p, std::vector<Leaf>& o) {
    if (O == 0) Walk<A>::names(p + ".z", o);
    Walk<B>::names(p + ".b", o);
    if (O != 0) Walk<A>::names(p + ".z", o);
  }
  static void values(const T& v, std::vector<scalar_expr>& o) {
    if (O == 0) Walk<A>::values(v.z, o);
    Walk<B>::values(v.b, o);
    if (O != 0) Walk<A>::values(v.z, o);
  }
  static void fill(T& v, std::vector<scalar_expr>::const_iterator& i) {
    if (O == 0) Walk<A>::fill(v.z, i);
    Walk<B>::fill(v.b, i);
    if (O != 0) Walk<A>::fill(v.z, i);
  }
};
template <int O, typename A, typename B, typename C>
struct Walk<S3<O, A, B, C>> {
  using T = S3<O, A, B, C>;
  static void names(const std::string& p, std::vector<Leaf>& o) {
    if (O == 1) Walk<C>::names(p + ".y", o);
    Walk<A>::names(p + ".z", o);
    if (O == 2) Walk<C>::names(p + ".y", o);
    Walk<B>::names(p + ".b", o);
    if (O == 0) Walk<C>::names(p + ".y", o);
  }
  static void values(const T& v, std::vector<scalar_expr>& o) {
    if (O == 1) Walk<C>::values(v.y, o);
    Walk<A>::values(v.z, o);
    if (O == 2) Walk<C>::values(v.y, o);
    Walk<B>::values(v.b, o);
    if (O == 0) Walk<C>::values(v.y, o);
  }
  static void fill(T& v, std::vector<scalar_expr>::const_iterator& i) {
    if (O == 1) Walk<C>::fill(v.y, i);
    Walk<A>::fill(v.z, i);
    if (O == 2) Walk<C>::fill(v.y, i);
    Walk<B>::fill(v.b, i);
    if (O == 0) Walk<C>::fill(v.y, i);
  }
};
}  // namespace

namespace wf {
template <int O, typename A, typename B>
struct custom_type_registrant<S2<O, A, B>> {
  auto operator()(custom_type_registry& r) const {
    using T = S2<O, A, B>;
    custom_type_builder<T> b(r, "S2");
    if (O == 0) b.add_field("z", &T::z);
    b.add_field("b", &T::b);
    if (O != 0) b.add_field("z", &T::z);
    return b;
  }
};
template <int O, typename A, typename B, typename C>
struct custom_type_registrant<S3<O, A, B, C>> {
  auto operator()(custom_type_registry& r) const {
    using T = S3<O, A, B, C>;
    custom_type_builder<T> b(r, "S3");
    if (O == 1) b.add_field("y", &T::y);
    b.add_field("z", &T::z);
    if (O == 2) b.add_field("y", &T::y);
    b.add_field("b", &T::b);
    if (O == 0) b.add_field("y", &T::y);
    return b;
  }
};
}  // namespace wf

namespace {
template <typename T>
struct Ext : wf::declare_external_function<Ext<T>, T, type_list<T, scalar_expr>> {
  static constexpr std::string_view name() { return "ext"; }
  static constexpr auto arg_names() { return std::make_tuple("t", "x"); }
};

std::string join(const std::vector<scalar_expr>& v) {
  std::string o;
  for (const auto& x : v) o += x.to_string() + ", ";
  return o;
}
bool same(const std::vector<scalar_expr>& a, const std::vector<scalar_expr>& b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const auto& x, const auto& y) { return x.is_identical_to(y); });
}

template <typename T>
void check(ex::Explorer& e, const char* what) {
  if (!e.next()) return;
  std::vector<Leaf> lv;
  Walk<T>::names("", lv);
  const std::size_t n = lv.size();
  auto bad = [&](const std::string& k, const std::string& d) { e.violation("C++ registry: " + k, std::string(what) + ": " + d); };
  auto ok = [&](bool c, const std::string& k, const std::string& d) {
    ++e.count["transitions_decided"];
    if (!c) bad(k, d);
  };
  custom_type_registry reg;
  const auto type = detail::record_type<T>{}(reg);
  ok(type.inner().total_size() == n, "total size", std::to_string(type.inner().total_size()));
  ok(are_identical(detail::record_type<T>{}(reg).inner(), type.inner()), "recorded twice", "different");
  std::vector<scalar_expr> s, extra;
  for (std::size_t i = 0; i < n; ++i) s.push_back(make_expr<variable>("s" + std::to_string(i), number_set::unknown));
  std::vector<scalar_expr> in = s;
  in.push_back(make_expr<variable>("e0", number_set::unknown));
  auto [inst, rest] = type.initialize_from_expressions(absl::Span<const scalar_expr>{in});
  std::vector<scalar_expr> got;
  Walk<T>::values(inst, got);
  ok(same(got, s), "initialize", join(got));
  ok(rest.size() == 1 && rest[0].is_identical_to(in.back()), "leftover expressions", std::to_string(rest.size()));
  T mine;
  auto it = s.cbegin();
  Walk<T>::fill(mine, it);
  got.clear();
  got.push_back(scalar_expr(99));
  type.copy_output_expressions(mine, got);
  got.erase(got.begin());
  ok(same(got, s), "copy out", join(got));
  for (std::size_t m = 0; m < n; ++m) {
    bool threw = false;
    try {
      type.initialize_from_expressions(absl::Span<const scalar_expr>{s.data(), m});
    } catch (const std::exception&) {
      threw = true;
    }
    ok(threw, "too few expressions", std::to_string(m));
  }
  // a function that takes two structs and returns them rearranged
  std::vector<scalar_expr> pe, qe;
  T result;
  const function_description d = build_function_description(
      [&](T p, scalar_expr x, T q) {
        pe.clear();
        qe.clear();
        Walk<T>::values(p, pe);
        Walk<T>::values(q, qe);
        std::vector<scalar_expr> r(qe.rbegin(), qe.rend());
        T a, b;
        auto i = r.cbegin();
        Walk<T>::fill(a, i);
        const T c = Ext<T>::call(a, x);
        const T c2 = Ext<T>::call(p, x);
        return std::make_tuple(return_value(a), output_arg("o", c), output_arg("w", c2), optional_output_arg("u", q));
      },
      "f", arg("p"), arg("x"), arg("q"));
  for (std::size_t k = 0; k < n; ++k) {
    ok(pe[k].to_string() == "p" + lv[k].path && qe[k].to_string() == "q" + lv[k].path, "field of an argument", pe[k].to_string() + " for " + lv[k].path);
    const auto t = determine_member_type(type.inner(), k);
    ok(t == (lv[k].integer ? numeric_primitive_type::integral : numeric_primitive_type::floating_point), "type of a field", lv[k].path);
    for (std::size_t j = 0; j < n; ++j) ok(pe[k].diff(pe[j]).is_identical_to(scalar_expr(j == k ? 1 : 0)), "derivative of a field", pe[k].to_string());
  }
  auto out = [&](expression_usage u, const char* name) { return std::get<compound_expr>(d.find_output_expressions(output_key(u, name))); };
  const compound_expr r = out(expression_usage::return_value, "");
  ok(same(create_expression_elements(r, n), std::vector<scalar_expr>(qe.rbegin(), qe.rend())), "returned struct", r.to_string());
  const compound_expr q = out(expression_usage::optional_output_argument, "u");
  ok(q.is_type<custom_type_argument>() && same(create_expression_elements(q, n), qe), "argument returned whole", q.to_string());
  const compound_expr o = out(expression_usage::output_argument, "o");
  ok(n < 2 || !o.is_type<custom_type_construction>(), "result of an external function returned whole", o.to_string());
  const auto el = create_expression_elements(o, n);
  for (std::size_t k = 0; k < n; ++k) {
    const std::string s0 = el[k].to_string();
    ok(s0.size() > lv[k].path.size() && s0.compare(s0.size() - lv[k].path.size(), std::string::npos, lv[k].path) == 0, "field of an external result", s0);
  }
  const compound_expr w = out(expression_usage::output_argument, "w");
  ok(w.to_string() == "ext(p, x)", "argument passed whole", w.to_string());
  e.state(ex::Explorer::mix(type.inner().hash() ^ n));
  e.sample([&] { return std::string(what) + std::string(": ") + join(pe); });
}

template <typename... Ts>
struct L {};
template <int O, typename... As>
void all2(ex::Explorer& e, L<As...> l) {
  auto inner = [&](auto* a) {
    using A = std::remove_pointer_t<decltype(a)>;
    (check<S2<O, A, As>>(e, "S2"), ...);
  };
  (inner(static_cast<As*>(nullptr)), ...);
}
template <int O, typename... As>
void all3(ex::Explorer& e, L<As...> l) {
  auto mid = [&](auto* a, auto* b) {
    using A = std::remove_pointer_t<decltype(a)>;
    using B = std::remove_pointer_t<decltype(b)>;
    (check<S3<O, A, B, As>>(e, "S3"), ...);
  };
  auto inner = [&](auto* a) { (mid(a, static_cast<As*>(nullptr)), ...); };
  (inner(static_cast<As*>(nullptr)), ...);
}
}  // namespace

int main(int argc, char** argv) {
  return ex::explorer_main(argc, argv, [](ex::Explorer& e) {
    using N1 = S2<0, F, M31>;
    using N2 = S2<1, I, F>;
    using N3 = S3<2, N2, F, M23>;
    all2<0>(e, L<F, I, M31, N3>{});
    all2<1>(e, L<F, M23, N1>{});
    all3<0>(e, L<F, M31, N2>{});
    all3<1>(e, L<F, N1>{});
    all3<2>(e, L<I, M23>{});
  });
}
