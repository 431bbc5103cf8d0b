// C04: differentiation returns the mathematical derivative.
#include "pool.h"
#include "wf/derivative.h"
using namespace h;

namespace {
Vars v;
Opaque o;

struct Run {
  ex::Explorer& e;
  Context c;
  Run(ex::Explorer& e_, int n, bool real_only) : e(e_), c(points(v, n, real_only)) { c.real_abs = true; }

  bool compare(const S& f, const S& var, const S& d, const std::string& key) {
    const VecP at = c.eval(f);
    Vec want = c.numeric_derivative(f, var);
    const VecP got = c.eval_nomemo(d);
    uint64_t decided = 0, defined = 0, wanted = 0;
    for (std::size_t i = 0; i < c.n; ++i) {
      if (!want[i].is_ok() || !(*at)[i].is_ok()) continue;
      if (std::abs(want[i].v) > 1e-6) ++wanted;
      const V& g = (*got)[i];
      if (g.st == ref::NOISE || g.st == ref::HUGE_) {
        ++defined;
        continue;
      }
      if (!g.is_ok()) continue;  // removable singularities of the formula
      ++defined;
      const double m = std::max(1.0, std::max(std::abs(want[i].v), std::abs(g.v)));
      const double tol = 100 * (want[i].err + g.err) + 1e-6 * m;
      if (tol > 1e-3 * m) continue;
      ++decided;
      if (std::abs(want[i].v - g.v) > tol) {
        std::string p;
        for (auto& [leaf, vals] : c.bind) p += " " + leaf.to_string() + "=" + ref::show(vals[i]);
        e.violation(key, "derivative: " + d.to_string() + " ; at" + p + " ; expected " + ref::show(want[i]) + " got " + ref::show(g));
        return false;
      }
    }
    if (wanted >= 3 && defined == 0) {
      e.violation(key, "derivative: " + d.to_string() + " is undefined at every point although the function is differentiable");
      return false;
    }
    e.count["values_compared"] += decided;
    if (decided) ++e.count["transitions_decided"];
    return true;
  }
  // One state: f. Transitions: d/dvar (and again, up to `order` times).
  void diff(const S& f, const S& var, int order) {
    if (!e.next()) return;
    auto name = [&] { return "d(" + f.to_string() + ")/d(" + var.to_string() + ")"; };
    e.sample(name);
    e.state(state_hash(f) * 31 + state_hash(var));
    try {
      S prev = f;
      for (int k = 1; k <= order; ++k) {
        // The k-th derivative in one call, against the numeric derivative of the (k-1)-th.
        const S d = f.diff(var, k);
        if (k > 1) ++e.count["transitions"];
        if (!compare(prev, var, d, name() + (k > 1 ? " order " + std::to_string(k) : ""))) return;
        prev = d;
      }
      if (!f.diff(var, 0).is_identical_to(f)) e.violation(name(), "derivative of order zero is not the function");
    } catch (const wf::arithmetic_error&) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(name(), std::string("unexpected exception: ") + x.what());
    }
  }
  void jacobian(const std::vector<S>& fs, const std::vector<S>& vars) {
    if (!e.next()) return;
    std::string n = "jacobian([";
    for (auto& f : fs) n += f.to_string() + ", ";
    n += "], [";
    for (auto& f : vars) n += f.to_string() + ", ";
    n += "])";
    e.sample([&] { return n; });
    try {
      const wf::matrix_expr J = wf::jacobian(fs, vars, wf::non_differentiable_behavior::constant);
      if (J.rows() != (int)fs.size() || J.cols() != (int)vars.size()) {
        e.violation(n, "wrong shape");
        return;
      }
      for (std::size_t i = 0; i < fs.size(); ++i)
        for (std::size_t j = 0; j < vars.size(); ++j)
          if (!compare(fs[i], vars[j], J(i, j), n + " entry " + std::to_string(i) + "," + std::to_string(j))) return;
      // The matrix-valued derivative agrees as well.
      const wf::matrix_expr m = wf::matrix_expr::create(static_cast<wf::index_t>(fs.size()), 1, fs);
      const wf::matrix_expr dm = m.diff(vars[0], 1);
      for (std::size_t i = 0; i < fs.size(); ++i)
        if (!compare(fs[i], vars[0], dm(i, 0), n + " matrix diff entry " + std::to_string(i))) return;
    } catch (const wf::arithmetic_error&) {
    } catch (const std::exception& x) {
      e.violation(n, std::string("unexpected exception: ") + x.what());
    }
  }
};

void explore(ex::Explorer& e, bool real_only) {
  Run t(e, real_only ? 10 : 9, real_only);
  const S im = wf::constants::imaginary_unit, pi = wf::constants::pi, eu = wf::constants::euler;
  // elementary pieces containing x
  Pool base;
  base.add_all({v.x, v.x + 2, v.x * 3, 2 - v.x, v.x * v.y, v.x + v.y, v.x / v.y, v.y / v.x, wf::pow(v.x, I(2)), wf::pow(v.x, I(-2)), wf::pow(v.x, Q(1, 2)), wf::pow(v.x, Q(-2, 3)), wf::pow(v.x, v.y), wf::pow(v.y, v.x), wf::pow(v.x, v.x), wf::pow(v.x + v.y, v.x), wf::pow(I(2), v.x),
                wf::pow(v.p, v.x), wf::pow(eu, v.x), wf::pow(Q(1, 3), v.x * 2), wf::pow(im, v.x), wf::pow(S(0.5), v.x), wf::pow(v.x, S(1.5)), v.x * im, v.y, v.p, I(3), pi, v.x * S(0.5) + Q(1, 3), v.x * v.y * v.r, wf::pow(v.x, I(3)) * wf::pow(v.y, I(2)), v.x - v.x * v.y, wf::atan2(v.x, v.r), wf::atan2(v.r, v.x), wf::atan2(v.x, v.x * 2 + 1), wf::atan2(v.x * v.y, v.x + v.r),
                wf::where(v.x < v.r, v.x, v.y), wf::where(v.x < I(0), wf::pow(v.x, I(2)), v.x * 3), wf::where(v.r < v.s, v.x * 2, wf::pow(v.x, I(2))), wf::max(v.x, v.y), wf::min(v.x, wf::pow(v.x, I(2))), wf::where(v.y < v.r, wf::where(v.x < v.s, v.x, I(1)), v.x * v.x), wf::iverson(v.x < v.y), wf::iverson(v.r < v.s) * v.x});
  Pool special;
  const S fx{std::in_place_type_t<wf::symbolic_function_invocation>{}, o.f, v.x};
  auto fn = [](const wf::symbolic_function& f, std::initializer_list<S> a) { return wf::make_expr<wf::symbolic_function_invocation>(f, wf::symbolic_function_invocation::container_type(a)); };
  const S f1 = fn(o.f, {v.x}), fxy = fn(o.f, {v.x, v.y}), gxx = fn(o.g, {v.x, v.x}), gs = fn(o.g, {v.x * v.x, v.y}), gl = fn(o.g, {v.x * 2, v.x + v.y}), k3 = fn(o.k, {v.y, v.x, v.x * v.y}), nest = fn(o.f, {fn(o.g, {v.x, v.r})}), gp = fn(o.g, {v.x + 1, v.y}), kc = fn(o.k, {v.y, v.r, v.s});
  special.add_all({f1, fxy, gxx, gs, gl, k3, nest, gp, kc, fn(o.f, {v.y}), fn(o.f, {f1}), fn(o.g, {f1, v.x}), f1 * v.x, wf::sin(f1), wf::pow(f1, fxy), wf::stop_diff(v.x), wf::stop_diff(v.x * v.y), v.x * wf::stop_diff(v.x), wf::sin(wf::stop_diff(v.x) + v.x), wf::stop_diff(f1) * f1, fn(o.f, {wf::stop_diff(v.x) * v.x}),
                   wf::make_unevaluated(v.x * v.y), wf::make_unevaluated(wf::pow(v.x, I(2))) + v.x, wf::sin(wf::make_unevaluated(v.x + v.y)), o.field(0), o.field(3) * v.x, wf::pow(o.field(2), v.x) * o.field(1), wf::sin(o.field(1) * v.x), o.call_s(v.y) * v.x, o.call_m(v.y, v.r, I(1))[0] + v.x});
  auto D = [](const S& f, const S& a, int n) { return wf::derivative::create(f, a, n); };
  auto Sub = [](const S& in, const S& a, const S& b) { return wf::substitution::create(in, a, b); };
  special.add_all({D(f1, v.x, 1), D(fxy, v.x, 1), D(fxy, v.y, 1), D(fxy, v.x, 2), D(D(fxy, v.x, 1), v.y, 1), D(f1, v.x, 1) * v.x, wf::sin(D(fxy, v.y, 1)), D(gs, v.x, 1), D(fn(o.f, {v.y}), v.y, 1), D(wf::pow(v.x, I(3)) * v.y, v.x, 1)});
  special.add_all({Sub(f1, v.x, v.y), Sub(f1, v.x, v.y * 2), Sub(fxy, v.y, v.x), Sub(fxy, v.y, v.x * v.x), Sub(fxy, v.y, wf::sin(v.x)), Sub(fn(o.f, {v.y}), v.y, v.x * 3), Sub(D(fn(o.f, {v.y}), v.y, 1), v.y, v.x * v.r), Sub(D(fxy, v.y, 1), v.y, v.x * v.r), Sub(fn(o.g, {v.y, v.r}), v.y, v.r), Sub(v.y * v.x, v.y, v.x),
                   Sub(fn(o.k, {f1, v.y}), f1, v.y * 2), Sub(fn(o.k, {fn(o.f, {v.y}), v.x}), fn(o.f, {v.y}), v.x), Sub(fn(o.k, {fn(o.f, {v.y}), v.x}), fn(o.f, {v.y}), v.x * 2), Sub(fn(o.k, {fn(o.f, {v.y}), v.r}), fn(o.f, {v.y}), v.x * v.x), Sub(fn(o.k, {fn(o.f, {v.y}), v.r}), fn(o.f, {v.y}), v.x), Sub(fxy, v.y, v.p), Sub(Sub(fxy, v.y, v.x * v.r), v.r, v.x)});

  const std::vector<S> vars{v.x, v.y};
  // A. every special node and elementary piece, all variables, up to third order.
  for (const S& f : base.v)
    for (const S& var : {v.x, v.y, v.r, v.p}) t.diff(f, var, 3);
  for (const S& f : special.v)
    for (const S& var : {v.x, v.y, v.r}) t.diff(f, var, 2);
  // Differentiation with respect to opaque nodes.
  for (const S& f : special.v)
    for (const S& var : {f1, fxy, fn(o.f, {v.y}), o.field(1), o.field(3)}) t.diff(f, var, 2);
  for (const S& f : {wf::sin(f1) * v.x, wf::pow(f1, I(3)) + f1 * fxy, wf::exp(f1 * fxy), fn(o.g, {f1, fxy}), wf::pow(o.field(1), I(2)) * o.field(2), wf::atan2(f1, fxy + 2)})
    for (const S& var : {f1, fxy, o.field(1), o.field(2)}) t.diff(f, var, 3);
  // B. every function of every piece, and sums / products / powers / quotients of pairs.
  Pool one;
  grow1(one, base.v);
  Pool sp1;
  grow1(sp1, special.v);
  for (const S& f : one.v) {
    t.diff(f, v.x, 2);
    t.diff(f, v.y, 1);
  }
  for (const S& f : sp1.v) t.diff(f, v.x, 1);
  Pool few;
  few.add_all({v.x, wf::sin(v.x), wf::exp(v.x * v.y), wf::pow(v.x, I(2)) + v.y, wf::log(v.x + 3), wf::pow(v.x + v.y, Q(1, 2)), f1, wf::abs(v.x), wf::where(v.x < v.r, v.x, v.x * v.y), wf::atan2(v.x, v.r), wf::pow(v.p, v.x), v.y, I(3)});
  Pool two;
  grow2(two, one.v, few.v);
  e.count[real_only ? "pool_real" : "pool_complex"] = e.shard == 0 ? two.size() : 0;
  for (std::size_t i = 0; i < two.size(); ++i)
    if (e.thorough || i % 5 == 0) t.diff(two.v[i], v.x, 1);
  // C. chains f(g(h(x))).
  Pool chain, chain2;
  grow1(chain, {v.x, v.x * 2 + 1, v.x * v.y, wf::pow(v.x, I(2)) + 1, wf::pow(v.x, Q(1, 2)), wf::where(v.x < v.y, v.x, v.y * 2), f1});
  grow1(chain2, chain.v);
  for (const S& f : chain2.v) t.diff(f, v.x, e.thorough ? 2 : 1);
  if (e.thorough) {
    Pool chain3;
    grow1(chain3, chain2.v);
    for (const S& f : chain3.v) t.diff(f, v.x, 1);
  }
  // D. jacobians: windows over a mixed list, so that rows share one cache.
  std::vector<S> mixed;
  for (std::size_t i = 0; i < base.size(); ++i) {
    mixed.push_back(base.v[i]);
    if (i < special.size()) mixed.push_back(special.v[i]);
    mixed.push_back(one.v[(i * 37) % one.size()]);
  }
  for (std::size_t i = 0; i + 3 < mixed.size(); ++i) {
    t.jacobian({mixed[i], mixed[i + 1], mixed[i + 2]}, {v.x, v.y});
    t.jacobian({mixed[i], mixed[i] * mixed[i + 3], wf::sin(mixed[i])}, {v.r, v.x, v.y});
  }
  // E. sizes: long products and sums, many arguments, high orders, large exponents, large jacobians.
  {
    std::vector<S> fs{v.x + 2, wf::sin(v.x), v.y, wf::pow(v.x, I(2)), wf::cos(v.x * v.y), v.p, wf::exp(v.x), wf::pow(v.x + 3, Q(1, 2)), v.r, wf::cosh(v.x), Q(2, 3), v.x * v.y + 1, wf::pow(v.p, v.x), wf::atan2(v.x, v.r), wf::tanh(v.x), wf::log(v.x + 4), v.s, wf::where(v.r < v.s, v.x, wf::sin(v.x * 2)), wf::pow(v.x, I(-1)), f1, wf::sqrt(v.x)};
    for (int i = 0; i < 6; ++i) {
      const S q{"q" + std::to_string(i), wf::number_set::unknown};
      if (!t.c.lookup(q)) {
        Vec u;
        for (std::size_t k = 0; k < t.c.n; ++k) u.push_back(V::ok(double((k * 5 + i * 3) % 11) / 8 + 0.25));
        t.c.set(q, u);
      }
      fs.push_back(q);
      fs.push_back(q + v.x);
    }
    for (std::size_t n = 3; n <= (e.thorough ? 24u : 14u); ++n)
      for (std::size_t stride : {1, 2, 4, 5, 7, 8, 10, 13, 16})
        for (std::size_t start : {0, 6, 15}) {
          std::vector<S> u;
          for (std::size_t i = 0; i < n; ++i) u.push_back(fs[(start + i * stride) % fs.size()]);
          const S prod = wf::multiplication::from_operands(u), sum = wf::addition::from_operands(u);
          t.diff(prod, v.x, n < 8 ? 2 : 1);
          t.diff(prod, v.y, 1);
          t.diff(sum, v.x, 2);
          t.diff(wf::sin(sum) * prod, v.x, 1);
          t.diff(wf::pow(sum, I(static_cast<int>(n) - 8)), v.x, 1);
          for (const S& fun : {wf::make_expr<wf::symbolic_function_invocation>(o.k, wf::symbolic_function_invocation::container_type(u.begin(), u.end()))})
            if (n < 9) {
              t.diff(fun, v.x, 1);
              t.diff(fun, v.y, 1);
            }
          if (stride % 4 == 1 && n < 11) {
            t.jacobian(u, {v.x, v.y, v.r, v.p, v.s});
            t.jacobian({u[0], u[1]}, {v.s, v.r, v.p, v.x, v.y, S{"q5", wf::number_set::unknown}, S{"q3", wf::number_set::unknown}, S{"q4", wf::number_set::unknown}});
          }
        }
    for (int k = -12; k <= 12; ++k)
      for (int d : {1, 2, 3, 4, 5, 7}) {
        t.diff(wf::pow(v.x, Q(k, d)), v.x, 4);
        t.diff(wf::pow(v.x * 2 + v.y, Q(k, d)), v.x, 2);
        t.diff(wf::pow(v.p, v.x * Q(k, d)), v.x, 3);
        t.diff(wf::sin(v.x * Q(k, d)) * v.y, v.x, 5);
        t.diff(wf::atan2(v.x * Q(k, d) + 1, v.x - v.r), v.x, 1);
        t.diff(wf::pow(S{double(k) / d}, v.x), v.x, 2);
      }
    for (const S& f : {wf::pow(v.x, I(7)) + wf::pow(v.x, I(3)) * v.y, wf::sin(v.x * 2), wf::exp(v.x * v.y), wf::cosh(v.x) * v.x, 1 / (v.x + 2), wf::log(v.x + 4), f1, fn(o.f, {v.y, v.x, v.r}), wf::sin(v.x) * wf::exp(v.x), wf::pow(v.p, v.x), wf::where(v.r < v.s, wf::pow(v.x, I(6)), wf::cos(v.x))}) t.diff(f, v.x, 7);
  }
  t.c.clear_memo();
}
void body(ex::Explorer& e) {
  explore(e, false);
  explore(e, true);
}
}  // namespace

int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
