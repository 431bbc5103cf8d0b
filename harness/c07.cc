// C07: common subexpression elimination is lossless.
#include "pool.h"
#include "wf/cse.h"
#include "wf/expression_iteration.h"
#include "wf/substitute.h"
using namespace h;

namespace {
Vars v;
Opaque o;
using Reps = std::vector<std::tuple<S, S>>;

// References to every scalar sub-expression, counted once per distinct parent.
struct Counts {
  std::unordered_map<S, std::size_t, ref::Hash, ref::Eq> n;
  template <typename X>
  void of(const X& root) {
    std::vector<wf::any_expression> todo{wf::any_expression{root}};
    std::unordered_set<S, ref::Hash, ref::Eq> ss;
    std::unordered_set<wf::boolean_expr, wf::hash_struct<wf::boolean_expr>, wf::is_identical_struct<wf::boolean_expr>> bs;
    std::unordered_set<wf::compound_expr, wf::hash_struct<wf::compound_expr>, wf::is_identical_struct<wf::compound_expr>> cs;
    std::unordered_set<wf::matrix_expr, wf::hash_struct<wf::matrix_expr>, wf::is_identical_struct<wf::matrix_expr>> ms;
    while (!todo.empty()) {
      const wf::any_expression q = todo.back();
      todo.pop_back();
      std::visit([&](const auto& ex_) {
        wf::visit(ex_, [&](const auto& node) {
          wf::for_each_child(node, [&](const auto& c) {
            using T = std::decay_t<decltype(c)>;
            bool fresh;
            if constexpr (std::is_same_v<T, S>) {
              ++n[c];
              fresh = ss.insert(c).second;
            } else if constexpr (std::is_same_v<T, wf::boolean_expr>) {
              fresh = bs.insert(c).second;
            } else if constexpr (std::is_same_v<T, wf::compound_expr>) {
              fresh = cs.insert(c).second;
            } else {
              fresh = ms.insert(c).second;
            }
            if (fresh) todo.push_back(wf::any_expression{c});
          });
        });
      }, q);
    }
  }
};
bool is_leaf(const S& q) {
  return wf::visit(q, [](const auto& x) { return std::decay_t<decltype(x)>::is_leaf_node; });
}

struct Run {
  ex::Explorer& e;
  Context c;
  explicit Run(ex::Explorer& e_) : e(e_), c(points(v, e_.thorough ? 18 : 8)) {}

  template <typename X>
  void cse(const X& in, std::size_t min, int naming) {
    if (!e.next()) return;
    auto text = [&] {
      if constexpr (std::is_same_v<X, S>) return in.to_string();
      else {
        std::string s = "[";
        for (const S& q : in.to_vector()) s += q.to_string() + ", ";
        return s + "]";
      }
    };
    const std::string key = "cse(" + text() + ", " + std::to_string(naming) + ", " + std::to_string(min) + ")";
    e.sample([&] { return key; });
    try {
      std::vector<S> made;
      std::function<S(std::size_t)> mk = nullptr;
      if (naming == 1) mk = [&](std::size_t i) { made.push_back(S{"u" + std::to_string(i), wf::number_set::unknown}); if (made.size() != i + 1) throw wf::type_error("variable indices are not consecutive"); return made.back(); };
      auto [out, reps] = wf::eliminate_subexpressions(in, mk, min);
      if (naming == 1 && made.size() != reps.size()) e.violation(key, key + ": created " + std::to_string(made.size()) + " variables for " + std::to_string(reps.size()) + " replacements");
      if (naming == 1)
        for (std::size_t i = 0; i < reps.size(); ++i)
          if (!std::get<0>(reps[i]).is_identical_to(made[i])) e.violation(key, key + ": replacement " + std::to_string(i) + " does not use the variable that was made for it");
      e.state(hash_any(out));
      e.count["replacements"] += reps.size();
      auto show = [&] {
        std::string s = "\n";
        for (auto& [a, b] : reps) s += "  " + a.to_string() + " = " + b.to_string() + "\n";
        if constexpr (std::is_same_v<X, S>) s += "  " + out.to_string();
        return s;
      };
      for (std::size_t i = 0; i < reps.size(); ++i) {
        const S& var = std::get<0>(reps[i]);
        if (!var.is_type<wf::variable>()) e.violation(key, key + ": not a variable:" + show());
        if (contains(in, var)) e.violation(key, key + ": the variable is not new:" + show());
        for (std::size_t j = 0; j < i; ++j)
          if (std::get<0>(reps[j]).is_identical_to(var)) e.violation(key, key + ": variable defined twice:" + show());
        bool used = contains(out, var);
        for (std::size_t j = 0; j < reps.size(); ++j)
          if (contains(std::get<1>(reps[j]), var)) {
            if (j <= i) e.violation(key, key + ": refers to a later variable:" + show());
            else used = true;
          }
        if (!used) e.violation(key, key + ": variable is not used:" + show());
      }
      // which sub-expressions were extracted
      Counts k;
      k.of(in);
      std::size_t expected = 0;
      for (auto& [q, n] : k.n)
        if (n >= min && !is_leaf(q)) ++expected;
      if (expected != reps.size()) e.violation(key, key + ": " + std::to_string(expected) + " sub-expressions occur often enough, extracted:" + show());
      // value: bind the variables in order
      std::vector<S> elems, want;
      if constexpr (std::is_same_v<X, S>) {
        elems = {out};
        want = {in};
      } else {
        elems = out.to_vector();
        want = in.to_vector();
      }
      if (elems.size() != want.size()) {
        e.violation(key, key + ": changed shape");
        return;
      }
      bool opaque = contains_type<wf::derivative>(in) || contains_type<wf::substitution>(in);
      // structure: substitute in reverse
      for (std::size_t i = 0; i < elems.size(); ++i) {
        S q = elems[i];
        // wf's own substitution would simplify differently; the definition of a variable is plugged in
        std::vector<S> defs;
        for (auto& [var, def] : reps) {
          S d = def;
          defs.push_back(d);
        }
        for (std::size_t j = reps.size(); j-- > 0;) {
          const std::vector<wf::scalar_or_boolean_pair> p{wf::scalar_pair{std::get<0>(reps[j]), defs[j]}};
          q = wf::substitute(q, absl::Span<const wf::scalar_or_boolean_pair>(p));
        }
        if (q.is_identical_to(want[i])) ++e.count["identical_after_back_substitution"];
        else {
          ++e.count["different_after_back_substitution"];
          const bool op = contains_type<wf::derivative>(want[i]) || contains_type<wf::substitution>(want[i]);
          if ((op && !contains_type<wf::power>(want[i])) || arithmetic_only(want[i])) e.violation(key, key + ": back-substituting gives " + q.to_string() + " from:" + show());
        }
      }
      if (!opaque) {
        Context d;
        d.n = c.n;
        d.bind = c.bind;
        for (auto& [var, def] : reps) {
          Context t;
          t.n = d.n;
          t.bind = d.bind;
          d.bind.emplace_back(var, *t.eval(def));
        }
        for (std::size_t i = 0; i < elems.size(); ++i) {
          Vec w = *c.eval(want[i]);
          const VecP g = d.eval(elems[i]);
          for (std::size_t j = 0; j < w.size(); ++j)
            if (!w[j].is_ok() || (!(*g)[j].is_ok() && w[j].maybe_zero())) w[j] = V::bad(ref::NOISE);
          check_value(e, d, w, elems[i], key, false);
        }
      } else {
        ++e.count["transitions_decided"];
      }
    } catch (const std::exception& x) {
      e.violation(key, key + " raised " + x.what());
    }
  }
  static bool arithmetic_only(const S& in) {
    bool ok = true;
    auto f = [&](const S& q) {
      if (!(q.is_type<wf::addition, wf::multiplication, wf::variable, wf::integer_constant, wf::rational_constant>())) ok = false;
      return ok;
    };
    walk(in, f);
    return ok;
  }
  static uint64_t hash_any(const S& s) { return state_hash(s); }
  static uint64_t hash_any(const wf::matrix_expr& m) {
    uint64_t z = 17;
    for (const S& s : m.to_vector()) z = ex::Explorer::mix(z * 31 + state_hash(s));
    return z;
  }
};

void body(ex::Explorer& e) {
  Run r(e);
  const S x = v.x, y = v.y, z = v.z;
  const std::vector<S> ks = kinds(v, o);
  Pool p;
  p.add_all(ks);
  // Sharing: functions of two sub-expressions that occur several times at different depths.
  std::vector<S> sub{x + y, x * y, wf::sin(x), wf::pow(x, I(2)), wf::sqrt(x + y), wf::sin(x * y), wf::cos(wf::sin(x)), x * y + wf::sin(x * y), wf::where(v.r < v.s, x * y, y), fnv(o.f, {x * y}), o.call_s(x + y), o.call_m(x * y, y, wf::sin(x))[1], wf::abs(v.r * v.s), v.r * v.s, wf::where(v.r * v.s < I(1), v.r * v.s, wf::sin(v.r * v.s)), o.field(0) * x, wf::pow(x + y, y * z), wf::iverson(v.r * v.s < v.p), wf::max(v.r * v.s, v.p), wf::atan2(v.r * v.s, v.p * v.r), dv(fnv(o.f, {x * y, x}), x), sub_(fnv(o.f, {x * y, x}), x, x * y), wf::make_unevaluated(x + y), wf::log(x + y) * (x + y), 1 / (x + y), 2 * (x * y), -(x * y), x * y * z, x + y + z, wf::pow(x, Q(3, 2))};
  auto combine = [&](const S& a, const S& b, Pool& out) {
    out.try_add([&] { return a + wf::sin(a) * b; });
    out.try_add([&] { return wf::pow(a, b) + a * b; });
    out.try_add([&] { return wf::cos(a * b) + wf::sin(a * b) * a; });
    out.try_add([&] { return wf::cos(a + b) * (a + b) + wf::exp(a); });
    out.try_add([&] { return wf::where(v.r < v.s, a * b, a) + b; });
    out.try_add([&] { return fnv(o.f, {a, b}) * fnv(o.g, {b, a}) + a; });
    out.try_add([&] { return fnv(o.f, {a, a}) + b; });
    out.try_add([&] { return (a + b) / (a - b); });
    out.try_add([&] { return o.call_s(a) + o.call_m(a, b, a * b)[0] * o.call_m(a, b, a * b)[1]; });
    out.try_add([&] { return wf::where(v.r < v.p, wf::sin(a), b) * wf::where(v.r < v.p, wf::sin(a), b * a); });
    out.try_add([&] { return wf::make_unevaluated(a + b) * (a + b) + wf::sqrt(a + b); });
  };
  for (const S& a : sub)
    for (const S& b : sub) combine(a, b, p);
  if (e.thorough) {
    for (const S& a : ks)
      for (const S& b : sub) combine(a, b, p);
    for (const S& a : ks)
      for (const S& b : ks) p.try_add([&] { return wf::cos(a * b) + (a - b) * wf::sin(a); });
  }
  for (const S& in : p.v)
    for (std::size_t min : {1, 2, 3, 4}) r.cse(in, min, min == 3 ? 1 : min == 1 ? 1 : 0);
  for (std::size_t i = 0; i < p.v.size(); i += e.thorough ? 1 : 3) r.cse(p.v[i], 2, 1);
  // matrices
  for (std::size_t i = 0; i < p.v.size(); i += e.thorough ? 2 : 7)
    for (std::size_t j = 0; j < sub.size(); j += 3) {
      r.cse(wf::make_matrix(2, 2, p.v[i], sub[j], wf::sin(p.v[i]), sub[j] * y), 2, 0);
      r.cse(wf::make_vector(p.v[i], p.v[i], sub[j]), 2, 1);
      r.cse(wf::make_row_vector(p.v[i], sub[j] + 1, sub[j] + 1), 3, 0);
    }
  // sizes: many shared sub-expressions, long chains of them, high occurrence counts, larger matrices.
  {
    std::vector<S> qs{x, y, z, v.r, v.s, v.p};
    for (std::size_t n = 2; n <= (e.thorough ? 40u : 16u); ++n)
      for (int kind = 0; kind < 6; ++kind) {
        // a chain: every level uses the previous one twice
        S c = x * y;
        for (std::size_t i = 0; i < n; ++i) {
          const S& q = qs[(i + kind) % 6];
          switch (kind) {
            case 0: c = wf::sin(c) + c * q; break;
            case 1: c = wf::cos(c + q) * wf::sin(c + q); break;
            case 2: c = fnv(o.f, {c, q}) + wf::exp(c); break;
            case 3: c = wf::where(v.r < v.s, c, wf::cos(c)) + q; break;
            case 4: c = wf::atan2(c, q + 3) * c; break;
            default: c = wf::sqrt(c * c + q) + wf::abs(c); break;
          }
        }
        if (n <= 12)
          for (std::size_t min : {1, 2, 3, 5}) r.cse(c, min, min % 2);
        // n separate shared expressions, the i-th of them occurring i + 1 times
        S sum = z;
        std::vector<S> el;
        for (std::size_t i = 0; i < n; ++i) {
          const S u = kind % 2 ? wf::sin(qs[i % 6] * (static_cast<int>(i) + 2)) : qs[i % 6] + static_cast<int>(i) + 1;
          for (std::size_t k = 0; k <= i; ++k) {
            const S w = kind < 2 ? wf::pow(u, qs[(k + i) % 6] + static_cast<int>(k)) : kind < 4 ? u * wf::cos(qs[k % 6] * (static_cast<int>(k + i) + 1)) : fnv(o.g, {u, I(static_cast<int>(k))});
            sum = sum + w;
            if (el.size() < 25) el.push_back(w);
          }
        }
        for (std::size_t min : {1, 2, 3, 4, 6, 9, 15}) r.cse(sum, min, min % 2);
        el.resize(25, x * y);
        const wf::matrix_expr mat = wf::matrix_expr::create(5, 5, el);
        for (std::size_t min : {1, 2, 4, 7}) r.cse(mat, min, min % 2);
      }
    // several taken names, not in order
    for (int mask = 1; mask < 64; ++mask) {
      S taken = x;
      for (int i = 0; i < 6; ++i)
        if (mask >> i & 1) taken = taken + S{"v" + std::to_string(i), wf::number_set::unknown} * (i + 2);
      S body = taken;
      for (int i = 0; i < 5; ++i) body = body + wf::sin(x * (i + 2)) * y + wf::cos(wf::sin(x * (i + 2)));
      r.cse(body, 2, 0);
      r.cse(body, 1, 0);
    }
  }
  // names that are taken
  const S v0{"v0", wf::number_set::unknown}, v1{"v1", wf::number_set::unknown}, v0r{"v0", wf::number_set::real};
  for (const S& a : sub)
    for (const S& q : {v0, v1, v0 + v1, v0r, v0 * x}) {
      r.cse(q * wf::sin(a) + wf::sin(a), 2, 0);
      r.cse(wf::cos(q) * wf::sin(a) + wf::sin(a) + wf::cos(q), 2, 0);
      r.cse(wf::make_vector(q, wf::sin(a), wf::sin(a), wf::cos(wf::sin(a)) + wf::exp(wf::cos(wf::sin(a)))), 2, 0);
    }
}
}  // namespace
int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
