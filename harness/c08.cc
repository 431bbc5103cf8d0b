// C08: matrix operations equal element-wise matrix algebra, for every shape.
#include <sstream>

#include "pool.h"
#include "wf/collect.h"
#include "wf/derivative.h"
#include "wf/distribute.h"
#include "wf/evaluate.h"
#include "wf/substitute.h"
using namespace h;
using M = wf::matrix_expr;
using wf::index_t;

namespace {
Vars v;

// A plain row-major grid.
struct Grid {
  index_t r = 0, c = 0;
  std::vector<S> d;
  const S& at(index_t i, index_t j) const { return d[static_cast<std::size_t>(i * c + j)]; }
  M m() const { return M::create(r, c, d); }
  std::string shape() const { return std::to_string(r) + "x" + std::to_string(c); }
};
template <typename F>
Grid make(index_t r, index_t c, F&& f) {
  Grid g{r, c, {}};
  for (index_t i = 0; i < r; ++i)
    for (index_t j = 0; j < c; ++j) g.d.push_back(f(i, j));
  return g;
}
Grid symbols(const std::string& p, index_t r, index_t c) {
  return make(r, c, [&](index_t i, index_t j) { return S{p + std::to_string(i) + std::to_string(j), wf::number_set::real}; });
}
std::string text(const Grid& g) {
  std::string s = g.shape() + "[";
  for (const S& x : g.d) s += x.to_string() + ", ";
  return s + "]";
}

struct Run {
  ex::Explorer& e;
  explicit Run(ex::Explorer& e_) : e(e_) {}

  Context values(std::initializer_list<const Grid*> gs) const {
    // every symbol used in the grids gets its own list of values
    Context c;
    const int n = 3;
    c.n = static_cast<std::size_t>(n);
    std::unordered_set<S, ref::Hash, ref::Eq> seen;
    int k = 0;
    auto f = [&](const S& q) {
      if (q.is_type<wf::variable>() && seen.insert(q).second) {
        ++k;
        Vec w;
        for (int i = 0; i < n; ++i) w.push_back(V::ok(C{((k * 37 + i * 11 + (k * k) % 7) % 23 - 10.5) / 4.0, 0}));
        c.set(q, std::move(w));
      }
      return true;
    };
    for (const Grid* g : gs)
      for (const S& q : g->d) walk(q, f);
    return c;
  }
  void same(const M& got, const Grid& want, const std::string& key, const Context* values = nullptr) {
    std::string t;
    if (got.rows() != want.r || got.cols() != want.c || got.size() != want.d.size()) {
      e.violation(key, key + ": shape " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " instead of " + want.shape());
      return;
    }
    const std::vector<S> el = got.to_vector();
    uint64_t z = 3;
    for (const S& s : el) z = ex::Explorer::mix(z * 31 + state_hash(s));
    e.state(z);
    bool ident = true;
    for (std::size_t i = 0; i < el.size(); ++i) {
      if (el[i].is_identical_to(want.d[i])) continue;
      if (values == nullptr) {
        e.violation(key, key + ": element " + std::to_string(i) + " is " + el[i].to_string() + " instead of " + want.d[i].to_string());
        return;
      }
      ident = false;
      const VecP w = values->eval(want.d[i]);
      if (!check_value(e, *values, *w, el[i], key, false)) return;
    }
    if (ident) ++e.count["transitions_decided"];
    for (index_t i = 0; i < want.r; ++i)
      for (index_t j = 0; j < want.c; ++j)
        if (!got(i, j).is_identical_to(el[static_cast<std::size_t>(i * want.c + j)])) e.violation(key, key + ": element access is not row-major");
  }
  template <typename F>
  void check(const std::string& key, const Grid& want, F&& f, const Context* values = nullptr) {
    if (!e.next()) return;
    e.sample([&] { return key; });
    try {
      same(f(), want, key, values);
    } catch (const std::exception& x) {
      e.violation(key, key + " raised " + x.what());
    }
  }
  template <typename Err = wf::dimension_error, typename F>
  void fails(const std::string& key, F&& f) {
    if (!e.next()) return;
    e.sample([&] { return key + " (must fail)"; });
    ++e.count["transitions_decided"];
    try {
      f();
      e.violation(key, key + " did not raise an error");
    } catch (const Err&) {
    } catch (const std::exception& x) {
      e.violation(key, key + " raised another error: " + x.what());
    }
  }

  void unary(const Grid& g) {
    const M m = g.m();
    const std::string t = text(g);
    const Context c = values({&g});
    const S s{"scale", wf::number_set::real};
    check("create " + t, g, [&] { return m; });
    check("transposed " + t, make(g.c, g.r, [&](index_t i, index_t j) { return g.at(j, i); }), [&] { return m.transposed(); });
    check("negative " + t, make(g.r, g.c, [&](index_t i, index_t j) { return -g.at(i, j); }), [&] { return -m; }, &c);
    check("scaled " + t, make(g.r, g.c, [&](index_t i, index_t j) { return g.at(i, j) * s; }), [&] { return m * s; });
    check("scaled left " + t, make(g.r, g.c, [&](index_t i, index_t j) { return s * g.at(i, j); }), [&] { return s * m; });
    for (const S& q : {s, I(2), S(0.5), I(-1), Q(2, 3)}) check("divided " + t, make(g.r, g.c, [&](index_t i, index_t j) { return g.at(i, j) / q; }), [&] { return m / q; }, &c);
    for (const S& q : {I(0), I(1), I(-1)}) check("scaled by a number " + t, make(g.r, g.c, [&](index_t i, index_t j) { return g.at(i, j) * q; }), [&] { return m * q; });
    if (g.r * g.c > 0) {
      Grid vecd{g.r * g.c, 1, {}};
      for (index_t j = 0; j < g.c; ++j)
        for (index_t i = 0; i < g.r; ++i) vecd.d.push_back(g.at(i, j));
      check("vec " + t, vecd, [&] { return wf::vectorize_matrix(m); });
      // norms
      Grid n{1, 1, {I(0)}};
      for (const S& q : g.d) n.d[0] = n.d[0] + q * q;
      check("squared norm " + t, n, [&] { return M::create(1, 1, std::vector<S>{m.squared_norm()}); }, &c);
      const Grid rt{1, 1, {wf::sqrt(n.d[0])}};
      check("norm " + t, rt, [&] { return M::create(1, 1, std::vector<S>{m.norm()}); }, &c);
    }
    // element access
    for (index_t i = -2; i <= g.r + 1; ++i)
      for (index_t j = -2; j <= g.c + 1; ++j)
        if (i < 0 || j < 0 || i >= g.r || j >= g.c) fails("element " + std::to_string(i) + "," + std::to_string(j) + " of " + t, [&] { (void)m(i, j); });
    for (index_t i = -2; i <= g.r * g.c + 1; ++i) {
      const std::string key = "item " + std::to_string(i) + " of " + t;
      if ((g.r != 1 && g.c != 1) || i < 0 || i >= g.r * g.c) fails(key, [&] { (void)m[i]; });
      else check(key, Grid{1, 1, {g.d[static_cast<std::size_t>(i)]}}, [&] { return M::create(1, 1, std::vector<S>{m[i]}); });
    }
    // blocks
    for (index_t i = -1; i <= g.r; ++i)
      for (index_t j = -1; j <= g.c; ++j)
        for (index_t nr = -1; nr <= g.r + 1; ++nr)
          for (index_t nc = -1; nc <= g.c + 1; ++nc) {
            const std::string key = "block " + std::to_string(i) + "," + std::to_string(j) + " size " + std::to_string(nr) + "," + std::to_string(nc) + " of " + t;
            const bool ok = i >= 0 && j >= 0 && nr >= 0 && nc >= 0 && i + nr <= g.r && j + nc <= g.c;
            if (ok) check(key, make(nr, nc, [&](index_t a, index_t b) { return g.at(i + a, j + b); }), [&] { return m.get_block(i, j, nr, nc); });
            else fails(key, [&] { (void)m.get_block(i, j, nr, nc); });
          }
    // reshape
    const index_t n = g.r * g.c;
    for (index_t a = -n - 1; a <= n + 1; ++a)
      for (index_t b = -n - 1; b <= n + 1; ++b) {
        const std::string key = "reshape " + std::to_string(a) + "," + std::to_string(b) + " of " + t;
        if (a >= 0 && b >= 0 && a * b == n) check(key, Grid{a, b, g.d}, [&] { return m.reshape(a, b); });
        else if (std::abs(a * b) <= n + 2) fails(key, [&] { (void)m.reshape(a, b); });
      }
  }
  void functions(const Grid& g, const std::vector<S>& vars) {
    const M m = g.m();
    const std::string t = text(g);
    const S x = vars[0];
    for (const S& q : vars)
      for (int reps : {0, 1, 2}) check("diff " + std::to_string(reps) + " " + q.to_string() + " of " + t, make(g.r, g.c, [&](index_t i, index_t j) { return wf::diff(g.at(i, j), q, reps, wf::non_differentiable_behavior::constant); }), [&] { return m.diff(q, reps); });
    fails<wf::exception_base>("diff -1 of " + t, [&] { (void)m.diff(x, -1); });
    for (std::size_t k = 1; k <= vars.size(); ++k) {
      const std::vector<S> vs(vars.begin(), vars.begin() + static_cast<std::ptrdiff_t>(k));
      const std::string key = "jacobian of " + t + " by " + std::to_string(k);
      if (g.r * g.c == 0) {
        fails<wf::exception_base>(key, [&] { (void)m.jacobian(absl::Span<const S>(vs)); });
      } else if (g.r == 1 || g.c == 1) {
        const Grid want = make(g.r * g.c, static_cast<index_t>(k), [&](index_t i, index_t j) { return wf::diff(g.d[static_cast<std::size_t>(i)], vs[static_cast<std::size_t>(j)], 1, wf::non_differentiable_behavior::constant); });
        check(key, want, [&] { return m.jacobian(absl::Span<const S>(vs)); });
        check(key + " (row)", want, [&] { return m.jacobian(M::create(1, static_cast<index_t>(k), vs)); });
        check(key + " (column)", want, [&] { return m.jacobian(M::create(static_cast<index_t>(k), 1, vs)); });
        check(key + " (function)", want, [&] { return wf::jacobian(absl::Span<const S>(g.d), absl::Span<const S>(vs), wf::non_differentiable_behavior::constant); });
        if (k == 4) fails(key + " (square)", [&] { (void)m.jacobian(M::create(2, 2, vs)); });
      } else {
        fails(key, [&] { (void)m.jacobian(absl::Span<const S>(vs)); });
      }
    }
    check("subs " + t, make(g.r, g.c, [&](index_t i, index_t j) { return g.at(i, j).subs(x, vars[1] + 2); }), [&] { return m.subs(x, vars[1] + 2); });
    check("distribute " + t, make(g.r, g.c, [&](index_t i, index_t j) { return wf::distribute(g.at(i, j)); }), [&] { return m.distribute(); });
    check("collect " + t, make(g.r, g.c, [&](index_t i, index_t j) { return wf::collect(g.at(i, j), x); }), [&] { return m.collect({x}); });
    check("eval " + t, make(g.r, g.c, [&](index_t i, index_t j) { return wf::evaluate(g.at(i, j)); }), [&] { return m.eval(); });
  }
  void binary(const Grid& a, const Grid& b) {
    const M ma = a.m(), mb = b.m();
    const std::string t = text(a) + " and " + text(b);
    const Context c = values({&a, &b});
    const bool eq = a.r == b.r && a.c == b.c;
    if (eq) {
      check("add " + t, make(a.r, a.c, [&](index_t i, index_t j) { return a.at(i, j) + b.at(i, j); }), [&] { return ma + mb; });
      check("subtract " + t, make(a.r, a.c, [&](index_t i, index_t j) { return a.at(i, j) - b.at(i, j); }), [&] { return ma - mb; });
      for (const wf::boolean_expr& q : {v.r < v.s, wf::constants::boolean_true, wf::constants::boolean_false}) check("where " + t, make(a.r, a.c, [&](index_t i, index_t j) { return wf::where(q, a.at(i, j), b.at(i, j)); }), [&] { return wf::where(q, ma, mb); });
    } else {
      fails("add " + t, [&] { (void)(ma + mb); });
      fails("subtract " + t, [&] { (void)(ma - mb); });
      fails("where " + t, [&] { (void)wf::where(v.r < v.s, ma, mb); });
    }
    product(a, b);
    stacks({a, b}, t);
    // identity and order
    if (!e.next()) return;
    bool ident = eq;
    for (std::size_t i = 0; ident && i < a.d.size(); ++i) ident = a.d[i].is_identical_to(b.d[i]);
    ++e.count["transitions_decided"];
    if (ma.is_identical_to(mb) != ident) e.violation("identity " + t, "identity of matrices " + t);
    const auto o = wf::order_struct<M>{}(ma, mb), p = wf::order_struct<M>{}(mb, ma);
    if ((o == wf::relative_order::equal) != ident || (o == wf::relative_order::less_than) != (p == wf::relative_order::greater_than)) e.violation("order " + t, "order of matrices " + t);
    if (ident && wf::hash_struct<M>{}(ma) != wf::hash_struct<M>{}(mb)) e.violation("hash " + t, "hash of matrices " + t);
  }
  void product(const Grid& a, const Grid& b) {
    const std::string t = text(a) + " and " + text(b);
    if (a.c == b.r) {
      const Context c = values({&a, &b});
      check("multiply " + t, make(a.r, b.c, [&](index_t i, index_t j) {
              S s = I(0);
              for (index_t k = 0; k < a.c; ++k) s = s + a.at(i, k) * b.at(k, j);
              return s;
            }), [&] { return a.m() * b.m(); }, &c);
    } else {
      fails("multiply " + t, [&] { (void)(a.m() * b.m()); });
    }
  }
  void stacks(const std::vector<Grid>& gs, const std::string& t) {
    std::vector<M> ms;
    bool same_r = true, same_c = true;
    index_t R = 0, Cn = 0;
    for (const Grid& g : gs) {
      ms.push_back(g.m());
      same_r = same_r && g.r == gs[0].r;
      same_c = same_c && g.c == gs[0].c;
      R += g.r;
      Cn += g.c;
    }
    if (same_r) {
      check("hstack " + t, make(gs[0].r, Cn, [&](index_t i, index_t j) {
              for (const Grid& g : gs) {
                if (j < g.c) return g.at(i, j);
                j -= g.c;
              }
              return I(99);
            }), [&] { return wf::hstack(ms); });
    } else {
      fails("hstack " + t, [&] { (void)wf::hstack(ms); });
    }
    if (same_c) {
      check("vstack " + t, make(R, gs[0].c, [&](index_t i, index_t j) {
              for (const Grid& g : gs) {
                if (i < g.r) return g.at(i, j);
                i -= g.r;
              }
              return I(99);
            }), [&] { return wf::vstack(ms); });
    } else {
      fails("vstack " + t, [&] { (void)wf::vstack(ms); });
    }
    check("diagonal stack " + t, make(R, Cn, [&](index_t i, index_t j) {
            for (const Grid& g : gs) {
              if (i < g.r && j < g.c && i >= 0 && j >= 0) return g.at(i, j);
              i -= g.r;
              j -= g.c;
            }
            return I(0);
          }), [&] { return wf::diagonal_stack(ms); });
  }
};

void body(ex::Explorer& e) {
  Run r(e);
  const index_t N = e.thorough ? 6 : 4;
  std::vector<std::pair<index_t, index_t>> shapes;
  for (index_t a = 0; a <= N; ++a)
    for (index_t b = 0; b <= N; ++b) shapes.push_back({a, b});
  // contents: distinct symbols, and grids with zeros, equal and opposite elements
  auto contents = [&](index_t a, index_t b, const std::string& p) {
    std::vector<Grid> out{symbols(p, a, b)};
    const std::vector<S> alt{I(0), v.r, -v.r, I(1), Q(1, 2), v.s, S(0.5), v.r + v.s};
    out.push_back(make(a, b, [&](index_t i, index_t j) { return alt[static_cast<std::size_t>(i * 3 + j * 5 + (p == "b")) % alt.size()]; }));
    out.push_back(make(a, b, [&](index_t i, index_t j) { return i == j ? S{p, wf::number_set::real} : I(0); }));
    return out;
  };
  for (auto [a, b] : shapes)
    for (const Grid& g : contents(a, b, "a")) r.unary(g);
  for (auto [a, b] : shapes) {
    const S x = v.r, y = v.s, z = v.p, w = v.n;
    const std::vector<S> el{x * y + x * 2, wf::pow(x, I(2)) * z, wf::sin(x * w), (x + y) * (z + 1), x, I(3), Q(1, 3), wf::where(x < y, x, y), wf::exp(y), wf::constants::pi * x, x * (y + z) + x * w};
    if (a * b <= 9) r.functions(make(a, b, [&](index_t i, index_t j) { return el[static_cast<std::size_t>(i * b + j) % el.size()]; }), {x, y, z, w});
  }
  for (auto [a, b] : shapes)
    for (auto [c, d] : shapes) {
      if (a * b > 25 || c * d > 25) {
        if (!(a == d || b == c)) continue;
      }
      const auto g = contents(a, b, "a"), k = contents(c, d, "b");
      for (std::size_t i = 0; i < g.size(); ++i)
        for (std::size_t j = 0; j < k.size(); ++j) r.binary(g[i], k[j]);
      r.binary(g[0], g[0]);
    }
  // three matrices
  const index_t T = e.thorough ? 3 : 2;
  for (index_t a = 0; a <= T; ++a)
    for (index_t b = 0; b <= T; ++b)
      for (index_t c = 0; c <= T; ++c)
        for (index_t d = 0; d <= T; ++d)
          for (index_t f = 0; f <= T; ++f)
            for (index_t g = 0; g <= T; ++g) {
              const std::vector<Grid> gs{symbols("a", a, b), symbols("b", c, d), symbols("c", f, g)};
              r.stacks(gs, text(gs[0]) + ", " + text(gs[1]) + ", " + text(gs[2]));
            }
  for (index_t n = 1; n <= N + 1; ++n) {
    const Grid col = symbols("d", n, 1);
    r.check("diagonal " + std::to_string(n), make(n, n, [&](index_t i, index_t j) { return i == j ? col.at(i, 0) : I(0); }), [&] { return wf::diagonal(absl::Span<const S>(col.d)); });
  }
  r.fails("diagonal 0", [&] { (void)wf::diagonal(absl::Span<const S>{}); });
  r.fails("hstack 0", [&] { (void)wf::hstack({}); });
  r.fails("vstack 0", [&] { (void)wf::vstack({}); });
  r.fails("diagonal_stack 0", [&] { (void)wf::diagonal_stack({}); });
  for (index_t a = -2; a <= N + 1; ++a) {
    for (index_t b = -2; b <= N + 1; ++b) {
      const std::string t = std::to_string(a) + "," + std::to_string(b);
      if (a > 0 && b > 0) {
        r.check("zeros " + t, make(a, b, [&](index_t, index_t) { return I(0); }), [&] { return wf::make_zeros(a, b); });
        r.check("identity " + t, make(a, b, [&](index_t i, index_t j) { return I(i == j); }), [&] { return wf::make_identity(a, b); });
        r.check("symbols " + t, make(a, b, [&](index_t i, index_t j) { return S{"q_" + std::to_string(i) + "_" + std::to_string(j), wf::number_set::unknown}; }), [&] { return wf::make_matrix_of_symbols("q", a, b); });
      } else {
        r.fails("zeros " + t, [&] { (void)wf::make_zeros(a, b); });
        r.fails("identity " + t, [&] { (void)wf::make_identity(a, b); });
        r.fails("symbols " + t, [&] { (void)wf::make_matrix_of_symbols("q", a, b); });
      }
      // wrong number of elements
      for (std::size_t n = 0; n <= 6; ++n)
        if (a < 0 || b < 0 || static_cast<index_t>(n) != a * b) r.fails<wf::exception_base>("create " + t + " from " + std::to_string(n), [&] { (void)M::create(a, b, std::vector<S>(n, I(1))); });
    }
    if (a > 0) r.check("identity " + std::to_string(a), make(a, a, [&](index_t i, index_t j) { return I(i == j); }), [&] { return wf::make_identity(a); });
    else r.fails("identity " + std::to_string(a), [&] { (void)wf::make_identity(a); });
  }
  // sizes: long vectors, wide and tall matrices, many blocks
  {
    const index_t big = e.thorough ? 16 : 11;
    for (index_t n = 5; n <= big; ++n) {
      for (const Grid& g : contents(n, 1, "a")) r.unary(g);
      for (const Grid& g : contents(1, n, "a")) r.unary(g);
      if (n <= 8) {
        for (auto [a, b] : std::vector<std::pair<index_t, index_t>>{{n, n}, {2, n}, {n, 3}}) {
          const auto gs = contents(a, b, "a");
          r.unary(gs[0]);
          r.unary(gs[1]);
        }
      }
      for (index_t m : {index_t{1}, index_t{2}, n - 1, n}) {
        const auto a = contents(m, n, "a"), b = contents(n, m, "b"), d = contents(m, n, "b");
        for (std::size_t i = 0; i < 3; ++i) {
          r.binary(a[i], b[(i + 1) % 3]);
          r.binary(b[i], a[i]);
          r.binary(a[i], d[(i + 1) % 3]);
        }
      }
      const S x = v.r, y = v.s, z = v.p, w = v.n;
      const std::vector<S> el{x * y + x * 2, wf::pow(x, I(2)) * z, wf::sin(x * w), (x + y) * (z + 1), x, I(3), Q(1, 3), wf::where(x < y, x, y), wf::exp(y), wf::constants::pi * x, x * (y + z) + x * w};
      std::vector<S> vs{x, y, z, w};
      for (int i = 0; i < static_cast<int>(n); ++i) vs.push_back(S{"q" + std::to_string(i), wf::number_set::unknown});
      const auto pick = [&](index_t i, index_t j) { return el[static_cast<std::size_t>(i * 4 + j + n) % el.size()] + vs[static_cast<std::size_t>(i + j) % vs.size()] * 2; };
      if (n < 8) {
        r.functions(make(n, 1, pick), vs);
        r.functions(make(1, n, pick), vs);
        r.functions(make(n, n - 1, pick), vs);
      }
      std::vector<Grid> h, d, k;
      for (index_t i = 0; i < n; ++i) {
        const std::string nm(1, static_cast<char>('a' + i));
        h.push_back(symbols(nm, 2, 1 + i % 3));
        k.push_back(symbols(nm, 1 + (i * 2) % 4, 2));
        d.push_back(symbols(nm, 1 + i % 2, (i + 1) % 3));
      }
      const std::string t = std::to_string(n) + " blocks";
      r.stacks(h, t);
      r.stacks(k, t + " (tall)");
      r.stacks(d, t + " (mixed)");
      const Grid col = symbols("d", n, 1);
      r.check("diagonal " + std::to_string(n), make(n, n, [&](index_t i, index_t j) { return i == j ? col.at(i, 0) : I(0); }), [&] { return wf::diagonal(absl::Span<const S>(col.d)); });
      r.check("identity " + std::to_string(n), make(n, n, [&](index_t i, index_t j) { return I(i == j); }), [&] { return wf::make_identity(n); });
      r.check("symbols " + std::to_string(n), make(n, n + 2, [&](index_t i, index_t j) { return S{"q_" + std::to_string(i) + "_" + std::to_string(j), wf::number_set::unknown}; }), [&] { return wf::make_matrix_of_symbols("q", n, n + 2); });
    }
  }
  // all 2x2 products over a small alphabet (zeros and cancellation)
  const std::vector<S> al = e.thorough ? std::vector<S>{I(0), I(1), v.r, -v.r, Q(1, 2)} : std::vector<S>{I(0), I(1), v.r, -v.r};
  const std::size_t K = al.size();
  std::size_t total = 1;
  for (int i = 0; i < 8; ++i) total *= K;
  for (std::size_t q = 0; q < total; ++q) {
    std::size_t w = q;
    std::vector<S> d;
    for (int i = 0; i < 8; ++i) {
      d.push_back(al[w % K]);
      w /= K;
    }
    r.product(Grid{2, 2, {d[0], d[1], d[2], d[3]}}, Grid{2, 2, {d[4], d[5], d[6], d[7]}});
  }
  if (e.thorough) {  // all products 2x3 * 3x2 over three elements
    total = 531441;
    for (std::size_t q = 0; q < total; ++q) {
      std::size_t w = q;
      std::vector<S> d;
      for (int i = 0; i < 12; ++i) {
        d.push_back(al[w % 3]);
        w /= 3;
      }
      r.product(Grid{2, 3, {d.begin(), d.begin() + 6}}, Grid{3, 2, {d.begin() + 6, d.end()}});
    }
  }
}
}  // namespace
int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
