// C03: identity, hash and order are coherent; sums and products do not depend on operand order.
#include <numeric>

#include "pool.h"
#include "wf/code_generation/types.h"
#include "wf/any_expression.h"
#include "wf/utility_visitors.h"
#include "wf/utility/ordering.h"
using namespace h;

namespace {
struct World {
  Vars v;
  Opaque o;
};

// Near-duplicates: leaves that differ in one attribute only.
std::vector<S> leaves(const World& w) {
  Pool p;
  using ns = wf::number_set;
  for (const char* n : {"x", "y", "xx", "X", "x1", "\xc3\xa9", ""})
    for (ns s : {ns::unknown, ns::complex, ns::real, ns::real_non_negative, ns::real_positive}) p.add(S{n, s});
  for (const char* n : {"x", "y", "x_0"})
    for (std::size_t i : {0, 1, 2, 10})
      for (auto t : {wf::numeric_primitive_type::floating_point, wf::numeric_primitive_type::integral}) p.add(wf::make_expr<wf::function_argument_variable>(std::string(n), wf::type_variant{wf::scalar_type(t)}, i));
  const int64_t mx = std::numeric_limits<int64_t>::max();
  for (int64_t k : {int64_t(0), int64_t(1), int64_t(-1), int64_t(2), int64_t(3), int64_t(-7), mx, mx - 1, -mx, int64_t(1) << 53, (int64_t(1) << 53) + 1, int64_t(4294967296)}) p.add(I(k));
  for (auto [a, b] : std::vector<std::pair<int64_t, int64_t>>{{1, 2}, {-1, 2}, {1, 3}, {2, 3}, {3, 2}, {-5, 3}, {7, 10}, {1, 1000000007}, {1000000006, 1000000007}, {1000000007, 1000000006}, {3037000499, 3037000500}, {3037000498, 3037000499}, {-3037000498, 3037000499}, {5000000000, 3}, {5000000002, 3}, {1, 2147483648}}) p.try_add([&, a = a, b = b] { return Q(a, b); });
  for (double d : {0.0, 1.0, -1.0, 2.0, 0.5, 0.1, 1.0 / 3, 0.1 + 0.2, 0.3, 1e300, -1e300, 5e-324, 9007199254740992.0}) p.add(S(d));
  p.add_all({wf::constants::pi, wf::constants::euler, wf::constants::imaginary_unit, wf::constants::complex_infinity, wf::constants::undefined});
  return p.v;
}

std::vector<S> build(const World& w, bool thorough) {
  Pool p;
  for (const S& e : leaves(w)) p.add(e);
  const auto ks = kinds(w.v, w.o);
  p.add_all(ks);
  const Vars& v = w.v;
  // the same shapes over different leaves
  for (const S& a : {v.x, v.y, v.r, I(2), Q(1, 2), S(0.5)}) {
    for (const S& b : {v.x, v.y, v.r, I(3)}) {
      for (const Op2& op : op2()) p.try_add([&] { return op.build(a, b); });
      p.add(wf::where(v.r < b, a, v.y));
      p.add(wf::where(v.r <= b, a, v.y));
      p.add(wf::where(v.r == b, a, v.y));
      p.add(wf::where(v.r < b, v.y, a));
      p.add(wf::iverson(v.s < b));
      p.add(wf::iverson(v.s <= b));
      p.add(wf::iverson(v.s == b));
      for (const auto* f : {&w.o.f, &w.o.g, &w.o.k}) {
        p.add(fnv(*f, {a}));
        p.add(fnv(*f, {a, b}));
        p.add(fnv(*f, {a, b, v.x}));
        p.try_add([&] { return dv(fnv(*f, {a, b}), b); });
        p.try_add([&] { return dv(fnv(*f, {a, b}), b, 2); });
        p.try_add([&] { return sub_(fnv(*f, {a, b}), b, a + 1); });
        p.try_add([&] { return sub_(fnv(*f, {a, b}), a, b + 1); });
      }
      p.try_add([&] { return wf::atan2(a + v.s, b + v.r); });
      p.add(wf::make_unevaluated(a + b));
      p.add(wf::stop_diff(a * b));
      p.add(w.o.call_s(a + b));
      p.add(w.o.call_m(a, b, I(1))[0]);
      p.add(w.o.call_m(a, b, I(1))[1]);
      p.add(w.o.call_m(a, b, I(2))[0]);
    }
    for (const Fn1& f : fn1()) p.try_add([&] { return f.build(a + v.s); });
  }
  for (std::size_t i = 0; i < 7; ++i) p.try_add([&] { return w.o.field(i); });
  // Aggregates with distinct names.
  using FT = wf::numeric_primitive_type;
  for (const char* t : {"T", "T2"}) {
    const wf::custom_type ty{t, {wf::struct_field{"a", wf::scalar_type(FT::floating_point)}, wf::struct_field{"b", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
    for (const char* n : {"p", "q"})
      for (std::size_t i : {0, 1}) p.add(wf::compound_expression_element::create(wf::create_custom_type_argument(ty, n), i));
  }
  for (const char* n : {"h1", "h2"}) {
    const wf::external_function fn{n, {wf::argument{"a", wf::scalar_type(FT::floating_point), wf::argument_direction::input, 0}}, wf::matrix_type(2, 1)};
    for (const S& a : {v.x, v.y, I(2)})
      for (int i : {0, 1}) p.try_add([&] { return std::get<wf::matrix_expr>(fn.create_invocation({wf::any_expression{a}}))[i]; });
  }
  Pool q;
  q.add_all(p.v);
  grow2(q, ks, thorough ? std::vector<S>{v.x, v.y, v.p, I(2), Q(1, 2), v.x + v.y, wf::pow(v.x, I(2)), wf::sin(v.x)} : std::vector<S>{v.x, v.p, I(2), Q(1, 2), v.x + v.y});
  if (thorough) grow1(q, ks);
  return q.v;
}

// Elements of arguments and results whose types or functions may share a name.
std::vector<S> homonyms(const World& w) {
  Pool p;
  const Vars& v = w.v;
  using FT = wf::numeric_primitive_type;
  // Fields of arguments that differ in the name of the argument or in the type (fields, Python class).
  const wf::custom_type a1{"T", {wf::struct_field{"a", wf::scalar_type(FT::floating_point)}, wf::struct_field{"b", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
  const wf::custom_type a2{"T", {wf::struct_field{"b", wf::scalar_type(FT::floating_point)}, wf::struct_field{"a", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
  const wf::custom_type a3{"T2", {wf::struct_field{"a", wf::scalar_type(FT::floating_point)}, wf::struct_field{"b", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
  const wf::custom_type a4{"T", {wf::struct_field{"a", wf::scalar_type(FT::integral)}, wf::struct_field{"b", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
  const wf::custom_type a5{"T", {wf::struct_field{"a", wf::matrix_type(2, 1)}}, std::type_index(typeid(int))};
  const wf::custom_type a6{"T", {wf::struct_field{"a", wf::matrix_type(1, 2)}}, std::type_index(typeid(int))};
  for (const auto& t : {a1, a2, a3, a4, a5, a6})
    for (const char* n : {"p", "q"})
      for (std::size_t i : {0, 1}) p.add(wf::compound_expression_element::create(wf::create_custom_type_argument(t, n), i));
  // External functions that differ in name, argument types or result type.
  using wf::argument;
  const auto in = wf::argument_direction::input;
  const wf::type_variant sc = wf::scalar_type(FT::floating_point);
  std::vector<wf::external_function> fs{{"h1", {argument{"a", sc, in, 0}}, wf::matrix_type(2, 1)}, {"h2", {argument{"a", sc, in, 0}}, wf::matrix_type(2, 1)}, {"h1", {argument{"a", sc, in, 0}}, wf::matrix_type(1, 2)}, {"h1", {argument{"b", sc, in, 0}}, wf::matrix_type(2, 1)}, {"h1", {argument{"a", wf::scalar_type(FT::integral), in, 0}}, wf::matrix_type(2, 1)}, {"h1", {argument{"a", sc, in, 0}, argument{"b", sc, in, 1}}, wf::matrix_type(2, 1)}};
  for (const auto& f : fs)
    for (const S& a : {v.x, v.y, I(2)}) {
      std::vector<wf::any_expression> args(f.num_arguments(), wf::any_expression{a});
      for (int i : {0, 1}) p.try_add([&] { return std::get<wf::matrix_expr>(f.create_invocation(args))[i]; });
    }
  return p.v;
}

using wf::relative_order;
template <typename T>
int ord(const T& a, const T& b) {
  return static_cast<int>(wf::order_struct<T>{}(a, b));
}

// All pairs of p (against an independently built copy q): one state per row.
template <typename T, typename Str>
void coherent(ex::Explorer& e, const std::vector<T>& p, const std::vector<T>& q, const std::string& what, Str str, bool total = true) {
  const std::size_t n = p.size();
  // rank of p[i] = number of members that are ordered before it
  std::vector<int> rank(n, -1);
  std::size_t rows = 0;
  (void)rows;
  auto rank_of = [&](std::size_t i) {
    if (rank[i] < 0) {
      int k = 0;
      for (std::size_t j = 0; j < n; ++j) k += ord(p[j], p[i]) < 0;
      rank[i] = k;
    }
    return rank[i];
  };
  std::vector<bool> mine(n);
  std::vector<uint64_t> ids(n);
  std::vector<std::size_t> todo;
  for (std::size_t i = 0; i < n; ++i) {
    if (!e.next()) continue;
    e.sample([&] { return what + " row " + str(p[i]); });
    e.state(ex::Explorer::mix(wf::hash_struct<T>{}(p[i])));
    auto key = [&] { return what + ": " + str(p[i]); };
    try {
      if (q.size() == n) {
        if (!are_identical(p[i], q[i]) || !are_identical(q[i], p[i])) e.violation(key(), "two separate constructions are not identical");
        if (wf::hash_struct<T>{}(p[i]) != wf::hash_struct<T>{}(q[i])) e.violation(key(), "two identical expressions hash differently");
      }
      for (std::size_t j = 0; j < n; ++j) {
        ++e.count["transitions"];
        const bool id = are_identical(p[i], p[j]);
        const T& b = q.size() == n ? q[j] : p[j];
        const int o = ord(p[i], b), ro = ord(b, p[i]);
        if (id != are_identical(p[j], p[i])) e.violation(key(), "identity is not symmetric with " + str(p[j]));
        if (id && wf::hash_struct<T>{}(p[i]) != wf::hash_struct<T>{}(p[j])) e.violation(key(), "identical to " + str(p[j]) + " but the hashes differ");
        if (o != -ro) e.violation(key(), "order is not antisymmetric with " + str(p[j]));
        // (Types and external functions of the same name are not told apart by the order.)
        if (total ? (o == 0) != id : id && o != 0) e.violation(key(), std::string(o == 0 ? "ordered equal to " : "ordered apart from ") + str(p[j]) + (id ? " which is identical" : " which is not identical"));
        if (id != (i == j)) e.violation(key(), "distinct expressions are identical: " + str(p[j]));
        const int ri = rank_of(i), rj = rank_of(j);
        if ((ri < rj ? -1 : ri > rj ? 1 : 0) != o) e.violation(key(), "order is not transitive (with " + str(p[j]) + ")");
        ++e.count["transitions_decided"];
      }
    } catch (const std::exception& x) {
      e.violation(key(), std::string("unexpected exception: ") + x.what());
    }
  }
}

bool has_float(const S& s) {
  return !wf::get_expressions_by_predicate(s + S{"unused"}, [](const S& x) { return x.is_type<wf::float_constant>(); }).empty();
}

void permutations(ex::Explorer& e, const World& w) {
  const Vars& v = w.v;
  const S im = wf::constants::imaginary_unit;
  Pool ops;
  ops.add_all({v.x, v.y, I(2), I(-1), Q(1, 2), S(0.5), wf::pow(v.x, I(2)), wf::pow(v.x, Q(1, 2)), v.x * v.y, -v.x, v.y * 3, v.x + v.y, (v.x + v.y) * 2, wf::sin(v.x), fnv(w.o.f, {v.x}), wf::constants::pi, im, wf::pow(I(2), Q(1, 2)), wf::pow(v.x, v.y), 1 / v.x, wf::where(v.r < v.s, v.x, v.y), v.x + 1, wf::pow(v.x + v.y, I(-1)), v.p, wf::pow(v.p, v.r), wf::pow(I(3), Q(1, 3)), wf::pow(im, v.x), wf::constants::complex_infinity, I(6), wf::pow(I(6), Q(1, 2)), wf::pow(Q(2, 3), Q(1, 2))});
  if (e.thorough) {
    ops.add_all({wf::pow(v.x, -v.y), wf::exp(v.x), wf::exp(v.y), wf::log(v.p), wf::abs(v.x), wf::pow(v.x, Q(-3, 2)), wf::pow(v.x * v.y, Q(1, 2)), S(-2.0), Q(-7, 5), v.x * Q(2, 3), v.x * S(1.5), w.o.field(0)});
  }
  const auto& o = ops.v;
  auto fold = [](const std::vector<S>& t, bool add) {
    S r = t[0];
    for (std::size_t i = 1; i < t.size(); ++i) r = add ? r + t[i] : r * t[i];
    return r;
  };
  auto check = [&](const std::vector<S>& t, bool add) {
    if (!e.next()) return;
    auto name = [&] {
      std::string s = add ? "sum of {" : "product of {";
      for (const S& a : t) s += a.to_string() + ", ";
      return s + "}";
    };
    e.sample(name);
    try {
      std::vector<std::size_t> ix(t.size());
      std::iota(ix.begin(), ix.end(), 0);
      const bool floats = std::any_of(t.begin(), t.end(), has_float);
      const S ref = add ? wf::addition::from_operands(t) : wf::multiplication::from_operands(t);
      e.state(state_hash(ref));
      // Every order of the operand list.
      do {
        std::vector<S> u;
        for (auto i : ix) u.push_back(t[i]);
        const S a = add ? wf::addition::from_operands(u) : wf::multiplication::from_operands(u);
        e.count["transitions"] += 2;
        // Floating-point sums depend on their order (and collapse to the integer zero).
        if (!floats && !a.is_identical_to(ref)) {
          e.violation(name(), "the operand order matters: " + ref.to_string() + " versus " + a.to_string());
          return;
        }
        // Left-associated and right-associated applications of the binary operator: swapping the
        // operands of any one application must not matter.
        S l = u[0], m = u[0];
        for (std::size_t i = 1; i < u.size(); ++i) {
          l = add ? l + u[i] : l * u[i];
          m = add ? u[i] + m : u[i] * m;
        }
        if (!l.is_identical_to(m)) {
          e.violation(name(), "the binary operator is not commutative: " + l.to_string() + " versus " + m.to_string());
          return;
        }
        ++e.count["transitions_decided"];
      } while (std::next_permutation(ix.begin(), ix.end()));
    } catch (const wf::arithmetic_error&) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(name(), std::string("unexpected exception: ") + x.what());
    }
  };
  for (bool add : {true, false}) {
    for (std::size_t i = 0; i < o.size(); ++i)
      for (std::size_t j = i; j < o.size(); ++j) {
        check({o[i], o[j]}, add);
        for (std::size_t k = j; k < o.size(); ++k) {
          check({o[i], o[j], o[k]}, add);
          if (e.thorough)
            for (std::size_t l = k; l < o.size(); l += 1 + (i % 2)) check({o[i], o[j], o[k], o[l]}, add);
          else if (k < 14)
            for (std::size_t l = k; l < 14; ++l) check({o[i], o[j], o[k], o[l]}, add);
        }
      }
  }
  // Long operand lists: every length, every stride through the pool, in a family of orders (reversed,
  // all rotations, riffled by every step, neighbours swapped).
  auto orders = [&](const std::vector<S>& t, bool add) {
    if (!e.next()) return;
    auto name = [&] {
      std::string s = add ? "long sum of {" : "long product of {";
      for (const S& a : t) s += a.to_string() + ", ";
      return s + "}";
    };
    e.sample(name);
    try {
      const S ref = add ? wf::addition::from_operands(t) : wf::multiplication::from_operands(t);
      e.state(state_hash(ref));
      auto same = [&](const std::vector<S>& u) {
        const S a = add ? wf::addition::from_operands(u) : wf::multiplication::from_operands(u);
        ++e.count["transitions"];
        ++e.count["transitions_decided"];
        if (a.is_identical_to(ref) && wf::hash_struct<S>{}(a) == wf::hash_struct<S>{}(ref) && a.to_string() == ref.to_string()) return true;
        e.violation(name(), "the operand order matters: " + ref.to_string() + " versus " + a.to_string());
        return false;
      };
      const std::size_t n = t.size();
      std::vector<S> u(t.rbegin(), t.rend());
      if (!same(u)) return;
      for (std::size_t k = 1; k < n; ++k) {
        u = t;
        std::rotate(u.begin(), u.begin() + k, u.end());
        if (!same(u)) return;
        std::swap(u[0], u[k]);
        if (!same(u)) return;
        u.clear();
        for (std::size_t b = 0; b < k; ++b)
          for (std::size_t i = b; i < n; i += k) u.push_back(t[i]);
        if (!same(u)) return;
      }
    } catch (const wf::arithmetic_error&) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(name(), std::string("unexpected exception: ") + x.what());
    }
  };
  {
    std::vector<S> exact;
    for (const S& a : o)
      if (!has_float(a) && !a.is_type<wf::complex_infinity>()) exact.push_back(a);
    for (int i = 0; i < 12; ++i) {
      const S q{"w" + std::to_string(i), i % 3 ? wf::number_set::unknown : wf::number_set::real};
      exact.push_back(q);
      if (i % 4 == 0) exact.push_back(wf::pow(q, I(i - 5)));
      if (i % 4 == 1) exact.push_back(wf::cos(q) * i);
    }
    for (std::size_t n = 4; n <= (e.thorough ? 48u : 26u); ++n)
      for (std::size_t stride : {1, 3, 5, 7, 11, 13})
        for (std::size_t start : {0, 9, 17, 31}) {
          std::vector<S> t;
          for (std::size_t i = 0; i < n; ++i) t.push_back(exact[(start + i * stride) % exact.size()]);
          orders(t, true);
          orders(t, false);
        }
  }
  // Symmetric relations.
  const auto ks = kinds(v, w.o);
  std::vector<S> rel = ks;
  for (const S& s : number_leaves()) rel.push_back(s);
  for (const S& a : rel)
    for (const S& b : rel) {
      if (!e.next()) continue;
      auto name = [&] { return "relations of " + a.to_string() + " and " + b.to_string(); };
      e.sample(name);
      try {
        auto same = [](const wf::boolean_expr& p, const wf::boolean_expr& q) { return p.is_identical_to(q) && wf::hash_struct<wf::boolean_expr>{}(p) == wf::hash_struct<wf::boolean_expr>{}(q) && ord(p, q) == 0; };
        if (!same(a < b, b > a)) e.violation(name(), "a < b differs from b > a");
        if (!same(a <= b, b >= a)) e.violation(name(), "a <= b differs from b >= a");
        if (!same(a == b, b == a)) e.violation(name(), "a == b differs from b == a");
        ++e.count["transitions_decided"];
      } catch (const wf::type_error&) {
        ++e.count["type_errors"];
      } catch (const std::exception& x) {
        e.violation(name(), std::string("unexpected exception: ") + x.what());
      }
    }
}

void body(ex::Explorer& e);
}  // namespace

namespace {
void body(ex::Explorer& e) {
  World w, w2;
  const auto p = build(w, e.thorough), q = build(w2, e.thorough);
  e.count["pool"] = e.shard == 0 ? p.size() : 0;
  if (p.size() != q.size()) {
    if (e.next()) e.violation("pool", "two runs of the same constructions gave different numbers of distinct expressions");
  }
  coherent(e, p, q, "scalar", [](const S& s) { return s.to_string() + " <" + std::string(s.type_name()) + ">"; });
  coherent(e, homonyms(w), homonyms(w2), "homonym", [](const S& s) { return s.to_expression_tree_string(); }, false);
  // booleans
  auto bools = [](const World& w, const std::vector<S>& ks) {
    std::vector<wf::boolean_expr> out;
    std::unordered_set<std::string> seen;
    auto add = [&](const wf::boolean_expr& b) {
      for (const auto& o : out)
        if (o.is_identical_to(b)) return;
      out.push_back(b);
    };
    for (std::size_t i = 0; i < ks.size(); i += 5)
      for (const S& b : {w.v.x, w.v.r, I(2), ks[i / 2]}) {
        try {
          add(ks[i] < b);
          add(ks[i] <= b);
          add(ks[i] == b);
          add(b < ks[i]);
        } catch (const wf::type_error&) {
        }
      }
    return out;
  };
  const auto ka = kinds(w.v, w.o), kb = kinds(w2.v, w2.o);
  coherent(e, bools(w, ka), bools(w2, kb), "boolean", [](const wf::boolean_expr& b) { return b.to_string(); });
  // matrices
  auto mats = [](const World& w, const std::vector<S>& ks) {
    std::vector<wf::matrix_expr> out;
    for (std::size_t i = 0; i + 6 < ks.size(); i += 9)
      for (auto [r, c] : std::vector<std::pair<int, int>>{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {2, 3}, {3, 2}, {4, 1}, {6, 1}}) out.push_back(wf::matrix_expr::create(r, c, std::vector<S>(ks.begin() + i, ks.begin() + i + r * c)));
    out.push_back(wf::make_zeros(2, 2));
    out.push_back(wf::make_zeros(4, 1));
    out.push_back(wf::make_zeros(1, 4));
    out.push_back(wf::make_identity(2));
    return out;
  };
  coherent(e, mats(w, ka), mats(w2, kb), "matrix", [](const wf::matrix_expr& m) { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + m.to_string(); });
  // compound expressions
  auto comps = [](const World& w) {
    std::vector<wf::compound_expr> out;
    using FT = wf::numeric_primitive_type;
    const wf::custom_type a1{"T", {wf::struct_field{"a", wf::scalar_type(FT::floating_point)}, wf::struct_field{"b", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
    const wf::custom_type a2{"T", {wf::struct_field{"b", wf::scalar_type(FT::floating_point)}, wf::struct_field{"a", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
    const wf::custom_type a3{"U", {wf::struct_field{"a", wf::scalar_type(FT::floating_point)}, wf::struct_field{"b", wf::scalar_type(FT::floating_point)}}, std::type_index(typeid(int))};
    for (const auto& t : {a1, a2, a3}) {
      for (const char* n : {"p", "q", "pp"}) out.push_back(wf::create_custom_type_argument(t, n));
      for (const S& a : {w.v.x, w.v.y, I(1)})
        for (const S& b : {w.v.x, w.v.y, Q(1, 2)}) out.push_back(wf::create_custom_type_construction(t, {a, b}));
    }
    return out;
  };
  coherent(e, comps(w), comps(w2), "compound", [](const wf::compound_expr& c) { return c.to_string() + " (" + c.to_expression_tree_string() + ")"; }, false);
  // signed zeros
  if (e.next()) {
    const S a(0.0), b(-0.0);
    if (a.is_identical_to(b) != (wf::hash_struct<S>{}(a) == wf::hash_struct<S>{}(b)) && a.is_identical_to(b)) e.violation("float zero", "0.0 and -0.0 are identical but hash differently");
  }
  permutations(e, w);
}
}  // namespace

int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
