// C05: substitution replaces exactly the requested sub-expressions.
#include "pool.h"
#include "wf/substitute.h"
using namespace h;

namespace {
Vars v;
Opaque o;
const S fresh{"w_fresh", wf::number_set::unknown};

struct Run {
  ex::Explorer& e;
  Context c;
  explicit Run(ex::Explorer& e_) : e(e_), c(points(v, e_.thorough ? 36 : 18)) {}

  using Pairs = std::vector<wf::scalar_or_boolean_pair>;
  static S sub1(const S& in, const S& t, const S& r) {
    const Pairs p{wf::scalar_pair{t, r}};
    return wf::substitute(in, absl::Span<const wf::scalar_or_boolean_pair>(p));
  }
  Context with(const S& leaf, const VecP& vals) const {
    Context d;
    d.n = c.n;
    d.bind = c.bind;
    d.bind.emplace_back(leaf, *vals);
    return d;
  }
  // Derivative and substitution nodes bind their variable: replacing it by something else than an
  // unused variable, or bringing it in from outside, is the subject of known findings.
  static const char* binder(const S& in, const S& t, const S& r) {
    const char* out = nullptr;
    auto f = [&](const S& q) {
      wf::visit(q, [&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, wf::derivative>) {
          const S& a = x.argument();
          const bool inside = contains(x.differentiand(), t) || contains(a, t);
          if (!inside) return;
          if (contains(a, t)) {
            if (!r.is_type<wf::variable>() || contains(x.differentiand(), r)) out = "derivative";
          } else if (contains(r, a)) {
            out = "derivative";
          }
        } else if constexpr (std::is_same_v<T, wf::substitution>) {
          const S& a = x.target();
          if (contains(a, t) || (contains(x.input(), t) && contains(r, a))) out = "substitution";
        }
      });
      return true;
    };
    walk(in, f);
    return out;
  }
  static std::string sub_name(const S& in, const S& t, const S& r) { return in.to_string() + " [" + t.to_string() + " -> " + r.to_string() + "]"; }

  static bool relational_inside(const S& in) {
    return contains_type<wf::conditional>(in) || contains_type<wf::iverson_bracket>(in);
  }
  // runs f; type errors are accepted if the operation has no result by the rules of the library
  template <typename F>
  bool run(const S& in, const S& t, const S& r, const std::string& key, F&& f) {
    try {
      f();
      return true;
    } catch (const wf::type_error& x) {
      if (relational_inside(in) || relational_inside(t) || relational_inside(r) || contains_type<wf::derivative>(in) || contains_type<wf::substitution>(in)) {
        ++e.count["type_errors"];
        return false;
      }
      e.violation(key, sub_name(in, t, r) + " raised " + x.what());
    } catch (const wf::arithmetic_error& x) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(key, sub_name(in, t, r) + " raised " + x.what());
    }
    return false;
  }

  // Where the replacement (or the target) is zero or infinite, a result without a value is accepted:
  // x/x is one, and becomes 0/0 when x is replaced by zero before the division is simplified.
  Vec lenient(Vec want, const S& r, const S& t, const S& got) const {
    const VecP rv = c.eval(r), tv = c.eval(t), gv = c.eval(got);
    for (std::size_t i = 0; i < want.size(); ++i) {
      const bool special = !(*rv)[i].is_ok() || (*rv)[i].maybe_zero() || !(*tv)[i].is_ok() || (*tv)[i].maybe_zero();
      if (!(*rv)[i].is_ok() || (special && (!(*gv)[i].is_ok() || !want[i].is_ok()))) want[i] = V::bad(ref::NOISE);
    }
    return want;
  }

  // A leaf or opaque target: the value of the original with the target bound to the replacement.
  void leaf(const S& in, const S& t, const S& r) {
    if (!e.next()) return;
    e.sample([&] { return sub_name(in, t, r); });
    const char* b = binder(in, t, r);
    const std::string key = b ? std::string("bound variable of a ") + b + " node" : sub_name(in, t, r);
    run(in, t, r, key, [&] {
      const S out = sub1(in, t, r);
      e.state(state_hash(out));
      if (!contains(in, t)) {
        ++e.count["transitions_decided"];
        if (!out.is_identical_to(in)) e.violation(key, sub_name(in, t, r) + " contains no target but was changed to " + out.to_string());
        return;
      }
      if (!b && !contains(r, t) && contains(out, t)) {
        e.violation(key, sub_name(in, t, r) + " still contains the target: " + out.to_string());
        return;
      }
      const Context d = with(t, c.eval(r));
      const VecP want = d.eval(in);
      h::check_value(e, c, lenient(*want, r, t, out), out, key, false);
    });
  }

  // A sum, product or power target.
  void partial(const S& in, const S& t, const std::vector<S>& reps) {
    if (!e.next()) return;
    e.sample([&] { return sub_name(in, t, fresh); });
    const char* b = binder(in, t, fresh);
    const std::string key = b ? std::string("bound variable of a ") + b + " node" : sub_name(in, t, fresh);
    const Context d = with(fresh, c.eval(t));
    S out = in;
    const bool ok = run(in, t, fresh, key, [&] {
      out = sub1(in, t, fresh);
      e.state(state_hash(out));
      if (!contains(out, fresh)) {
        if (!out.is_identical_to(in)) e.violation(key, sub_name(in, t, fresh) + ": nothing was replaced but the result is " + out.to_string());
        if (contains(in, t)) e.violation(key, sub_name(in, t, fresh) + ": the target was not replaced");
        ++e.count["transitions_decided"];
        return;
      }
      ++e.count["replacements_made"];
      if (contains(out, t)) e.violation(key, sub_name(in, t, fresh) + ": the target is still there: " + out.to_string());
      // Removable singularities: where the target is zero or infinite nothing is claimed.
      Vec want = *c.eval(in);
      const VecP tv = c.eval(t);
      for (std::size_t i = 0; i < want.size(); ++i)
        if (!(*tv)[i].is_ok() || (*tv)[i].maybe_zero()) want[i] = V::bad(ref::NOISE);
      check_value(d, want, out, key);
    });
    if (!ok || !contains(out, fresh)) return;
    for (const S& r : reps) {
      const char* b2 = binder(in, t, r);
      const std::string key2 = b2 ? std::string("bound variable of a ") + b2 + " node" : sub_name(in, t, r);
      ++e.count["transitions"];
      run(in, t, r, key2, [&] {
        const S got = sub1(in, t, r);
        const Context d2 = with(fresh, c.eval(r));
        const VecP want = d2.eval(out);
        e.state(state_hash(got));
        h::check_value(e, c, lenient(*want, r, t, got), got, key2, false);
      });
    }
  }
  void check_value(const Context& ctx, const Vec& want, const S& got, const std::string& key) { h::check_value(e, ctx, want, got, key, false); }
  bool check_value(ex::Explorer& x, const Context& ctx, const Vec& want, const S& got, const std::string& key, bool strict) { return h::check_value(x, ctx, want, got, key, strict); }

  Vec skip_bad(Vec want, const S& got) const {
    const VecP gv = c.eval(got);
    for (std::size_t i = 0; i < want.size(); ++i)
      if (!want[i].is_ok() || !(*gv)[i].is_ok() || (std::abs(want[i].v) < 1e-12 && std::abs((*gv)[i].v) < 1e-12)) want[i] = V::bad(ref::NOISE);
    return want;
  }

  // Lists of pairs: in order, or at once.
  void list(const S& in, const std::vector<std::pair<S, S>>& ps) {
    if (!e.next()) return;
    auto name = [&] {
      std::string s = in.to_string() + " [";
      for (auto& [t, r] : ps) s += t.to_string() + " -> " + r.to_string() + ", ";
      return s + "]";
    };
    e.sample(name);
    bool b = false;
    for (auto& [t, r] : ps)
      if (contains_type<wf::derivative>(in) || contains_type<wf::substitution>(in)) b = true;
    if (b) return;
    const std::string key = "list " + name();
    try {
      Pairs p;
      S want = in;
      for (auto& [t, r] : ps) {
        p.push_back(wf::scalar_pair{t, r});
        want = sub1(want, t, r);
      }
      const absl::Span<const wf::scalar_or_boolean_pair> sp(p);
      const S got = wf::substitute(in, sp);
      e.state(state_hash(got));
      ++e.count["transitions_decided"];
      if (!got.is_identical_to(want)) {
        // equal values are enough
        const VecP w = c.eval(want);
        h::check_value(e, c, skip_bad(*w, got), got, key, false);
      }
      // matrices, booleans and compound expressions take the same path
      const wf::matrix_expr m = wf::make_matrix(2, 2, in, in + 1, v.x, in * v.y);
      const wf::matrix_expr mg = wf::substitute(m, sp);
      for (std::size_t i = 0; i < 4; ++i) {
        const S mi = wf::substitute(m.to_vector()[i], sp);
        if (!mg.to_vector()[i].is_identical_to(mi)) e.violation(key, name() + ": matrix element " + mg.to_vector()[i].to_string() + " scalar " + mi.to_string());
      }
      const auto call = o.ext_s.create_invocation({wf::any_expression{in}});
      const S cs = wf::substitute(std::get<S>(call), sp);
      if (!cs.is_identical_to(o.call_s(got))) e.violation(key, name() + ": inside an external call: " + cs.to_string());
      const wf::boolean_expr rel = in < S{"q_other", wf::number_set::real};
      const wf::boolean_expr rg = wf::substitute(rel, sp);
      if (!(wf::is_undefined(got) || wf::is_complex_infinity(got)) && !rg.is_identical_to(got < S{"q_other", wf::number_set::real})) e.violation(key, name() + ": inside a relation: " + rg.to_string());
      // simultaneous
      bool vars = ps.size() > 1;
      for (std::size_t i = 0; i < ps.size(); ++i) {
        vars = vars && ps[i].first.is_type<wf::variable>();
        for (std::size_t j = 0; j < i; ++j) vars = vars && !ps[i].first.is_identical_to(ps[j].first);
      }
      if (vars) {
        const S at_once = wf::substitute(in, sp, true);
        Context d;
        d.n = c.n;
        d.bind = c.bind;
        for (auto& [t, r] : ps) d.bind.emplace_back(t, *c.eval(r));
        const VecP w = d.eval(in);
        h::check_value(e, c, skip_bad(*w, at_once), at_once, key + " at once", false);
      }
    } catch (const wf::type_error&) {
      ++e.count["type_errors"];
    } catch (const wf::arithmetic_error&) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(key, name() + " raised " + x.what());
    }
  }

  // A boolean target: agrees with the original wherever the target and its replacement agree.
  void boolean(const S& in, const wf::boolean_expr& t, const wf::boolean_expr& r) {
    if (!e.next()) return;
    auto name = [&] { return in.to_string() + " [" + t.to_string() + " -> " + r.to_string() + "]"; };
    e.sample(name);
    try {
      const Pairs p{wf::boolean_pair{t, r}};
      const S out = wf::substitute(in, absl::Span<const wf::scalar_or_boolean_pair>(p));
      const VecP a = c.eval(in);
      const auto bt = c.eval(t), br = c.eval(r);
      Vec want = *a;
      bool has = false;
      std::string ts = t.to_string();
      for (std::size_t i = 0; i < c.n; ++i)
        if (bt[i].st != ref::OK || br[i].st != ref::OK || bt[i].v != br[i].v) want[i] = V::bad(ref::NOISE);
      h::check_value(e, c, want, out, name(), false);
      // every occurrence is replaced
      auto f = [&](const S& q) {
        wf::visit(q, [&](const auto& x) {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, wf::conditional>) {
            if (x.condition().is_identical_to(t)) has = true;
          } else if constexpr (std::is_same_v<T, wf::iverson_bracket>) {
            if (x.arg().is_identical_to(t)) has = true;
          }
        });
        return true;
      };
      walk(out, f);
      if (has && !t.is_identical_to(r)) e.violation(name(), name() + ": still contains the condition: " + out.to_string());
      has = false;
      walk(in, f);
      if (!has && !out.is_identical_to(in)) e.violation(name(), name() + ": contains no such condition but was changed to " + out.to_string());
    } catch (const std::exception& x) {
      e.violation(name(), name() + " raised " + x.what());
    }
  }
};

void body(ex::Explorer& e) {
  ref::log_zero_undefined = true;
  Run r(e);
  Pool p;
  p.add_all(kinds(v, o));
  const S x = v.x, y = v.y, z = v.z;
  p.add_all({wf::pow(x, I(4)), wf::pow(x, I(-2)), wf::pow(x, I(5)), wf::pow(x, Q(5, 2)), wf::pow(x, Q(-7, 3)), wf::pow(x, y * 3), wf::pow(x, y * Q(5, 3)), wf::pow(x, y * 2 + z), wf::pow(x, y * 2 + 3), wf::pow(x, y * Q(7, 2) + z), wf::pow(x, -y), wf::pow(x, I(2)) * wf::pow(y, I(3)), wf::pow(x, I(3)) * wf::pow(y, I(2)) * z * 5, wf::pow(x, I(-3)) * wf::pow(y, I(-2)), wf::pow(x, I(2)) / y, x * y * z * 6, x * y * S(1.5), wf::pow(x, I(2)) * y * S(1.5), x * S(1.5), wf::pow(x, I(2)) * S(1.5), S(1.5) / x, wf::pow(x, Q(1, 2)) * y, wf::pow(x, Q(3, 2)) * wf::pow(y, I(2)), x * y * Q(2, 3), x + y + z + 2, x + y + S(1.5), x + S(1.5) + z, x * 2 + y * 2, x - y + z, -x - y, x + y * 2 + 3, x * S(0.5) + y, wf::sin(x + y) * (x + y + z), wf::pow(x + y, I(2)) + x + y, wf::log(x * y * z) + x * y, wf::where(v.r < v.s, x * y * z, x + y + z), wf::pow(x * y, z), wf::sqrt(x * wf::pow(y, I(3))), wf::pow(wf::pow(x, I(2)) + 1, I(2)) + wf::pow(x, I(4)), x * x + x * y + y * y, o.call_s(x * y) * x * y, fnv(o.f, {x * y, x + y + 1})});
  {
    const std::vector<S> base{x, y, x + y, x * y, wf::pow(x, I(2)), wf::pow(x, y), x * S(1.5), x + 1, x / y, wf::sqrt(x), I(2), Q(3, 2), v.r, v.p, x * 2, wf::pow(x, I(3)), z, wf::pow(y, I(-2))};
    const std::vector<S> all = p.v;
    grow2(p, base, e.thorough ? all : base);
  }
  const std::vector<S> leaf_targets{x, y, v.r, v.p, fnv(o.f, {x}), fnv(o.f, {x, y}), o.field(0), o.call_s(x), o.call_m(x, y, I(1))[0], wf::log(x), wf::sin(x + y), wf::where(v.r < v.s, x, y), wf::abs(x), wf::make_unevaluated(x + y), wf::constants::pi, wf::constants::imaginary_unit, wf::iverson(v.r < v.s), wf::atan2(v.r, v.s), wf::stop_diff(x)};
  const std::vector<S> reps{I(0), I(1), I(-2), Q(1, 2), S(2.5), y, z, x + y, x * 2, -x, wf::pow(x, I(2)), wf::sqrt(v.p), 1 / x, v.r * v.s, fnv(o.f, {y}), wf::where(v.r < v.s, y, z), wf::constants::imaginary_unit, wf::constants::pi, v.p, wf::sin(x)};
  for (const S& in : p.v)
    for (const S& t : leaf_targets)
      for (const S& q : reps) r.leaf(in, t, q);
  const std::vector<S> part_targets{x + y, x - y, x + 1, x + S(1.5), x * 2 + y, x + y * 2, x + y + z, -x, x * y, x * 2, x * 2 * y, x * S(1.5), x * y * S(1.5), x / y, x * y * z, x * Q(2, 3), -x * y, wf::pow(x, I(2)) * y, wf::pow(x, Q(1, 2)) * y, x * wf::sin(y), wf::pow(x, I(2)), wf::pow(x, I(3)), wf::pow(x, I(-1)), wf::pow(x, I(-2)), wf::sqrt(x), wf::pow(x, Q(3, 2)), wf::pow(x, y), wf::pow(x, y * 2), wf::pow(x, -y), wf::pow(x + y, I(2)), wf::pow(I(2), x), wf::pow(y, x), wf::pow(v.p, v.r), wf::pow(x, S(1.5)), wf::pow(I(2), Q(1, 2)), wf::constants::imaginary_unit * x, wf::constants::pi + x, wf::pow(wf::constants::euler, x), wf::make_unevaluated(x + y) * 2, fnv(o.f, {x}) * x, x + o.field(0)};
  const std::vector<S> preps{I(0), I(1), I(3), S(2.5), y, x + y, x * y, (x + y) * 2, x * y * 2 + 1, wf::pow(x, I(2)) + 1, wf::pow(x, y) + x, wf::sin(x * y), x, v.r};
  for (const S& in : p.v)
    for (const S& t : part_targets) r.partial(in, t, preps);
  // pairs and triples
  std::vector<std::pair<S, S>> pr;
  for (const S& t : std::vector<S>{x, y, v.r})
    for (const S& q : std::vector<S>{x, y, z, v.s, I(2), S(0.5), x + y, y * 2, wf::constants::pi}) pr.push_back({t, q});
  for (auto& q : std::vector<std::pair<S, S>>{{o.field(0), x}, {o.field(0), I(3)}, {x, o.field(0)}, {o.field(1), o.field(0)}, {o.call_m(x, y, I(1))[0], I(7)}, {x * y, z}, {x + y, I(1)}, {fnv(o.f, {x}), y}, {wf::pow(x, I(2)), y}, {wf::sin(x), x}}) pr.push_back(q);
  Pool small;
  for (std::size_t i = 0; i < p.v.size(); ++i)
    if (i % (e.thorough ? 3 : 9) == 0) small.add(p.v[i]);
  small.add_all({x + y * 2, wf::pow(x, y), wf::sin(x) * wf::cos(y) + v.r, o.field(0) * x + y, o.call_m(x, y, I(1))[0] + o.field(1) * o.field(0), fnv(o.f, {x, y}), wf::where(v.r < v.s, x, y), wf::atan2(v.r, v.s) + x, x * y + wf::pow(x, I(2))});
  for (const S& in : small.v)
    for (auto& a : pr)
      for (auto& b : pr) r.list(in, {a, b});
  const std::vector<S> trip{x + y * 2 + z * 3, o.field(0) + x * wf::pow(y, v.r), wf::where(v.r < v.s, x * y, y - x)};
  for (const S& in : trip)
    for (auto& a : pr)
      for (auto& b : pr)
        for (auto& d : pr)
          if (e.thorough || (&a - &pr[0] + (&b - &pr[0]) + (&d - &pr[0])) % 4 == 0) r.list(in, {a, b, d});
  // sizes: a grid of exponents and coefficients; targets and inputs of many terms; long lists of pairs.
  {
    const std::vector<S> small_reps{z, S{"w0", wf::number_set::unknown} + 1};
    std::vector<S> names;
    for (int i = 0; i < 10; ++i) {
      const S q{"q" + std::to_string(i), i % 3 == 2 ? wf::number_set::real_positive : wf::number_set::unknown};
      Vec u;
      for (std::size_t k = 0; k < r.c.n; ++k) u.push_back(i % 3 == 2 ? V::ok(double((k * 3 + i) % 7) / 4 + 0.5) : V::ok(C{double((k * 5 + i * 3) % 11) / 8 + 0.25, double((k + i) % 3) / 4}));
      if (!r.c.lookup(q)) r.c.set(q, u);
      names.push_back(q);
    }
    {
      Vec u;
      for (std::size_t k = 0; k < r.c.n; ++k) u.push_back(V::ok(C{double((k * 7) % 9) / 8 + 0.125, 0.25}));
      r.c.set(S{"w0", wf::number_set::unknown}, u);
    }
    const int m = e.thorough ? 9 : 6;
    for (int a = -m; a <= m; ++a)
      for (int b = -m; b <= m; ++b) {
        const S in = wf::pow(x, I(a)) * wf::pow(y, I(b));
        const S in2 = in * 12 * z, in3 = wf::pow(x, y * a + b), in4 = wf::pow(x, Q(a, 3)) * wf::pow(y, Q(b, 2));
        for (auto [c, d] : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {2, 3}, {1, -1}, {-1, -2}, {3, 3}, {-2, 1}, {1, 0}, {2, 0}, {3, 0}, {-1, 0}, {4, 0}}) {
          const S t = wf::pow(x, I(c)) * wf::pow(y, I(d));
          if (t.is_type<wf::variable>()) continue;
          r.partial(in, t, small_reps);
          r.partial(in2, t, small_reps);
          r.partial(in3, t, small_reps);
          r.partial(in4, t, small_reps);
        }
        for (const S& t : {wf::pow(x, y), wf::pow(x, y * 2), wf::pow(x, y * -3), wf::pow(x, y * Q(1, 2)), wf::sqrt(x), wf::pow(x, Q(1, 3)) * wf::pow(y, Q(1, 2)), wf::pow(x, Q(2, 3)), x * 2, x * 6 * y, x * Q(2, 3), y * Q(-4, 3)}) {
          r.partial(in3, t, small_reps);
          r.partial(in4, t, small_reps);
          r.partial(in2, t, small_reps);
        }
      }
    for (int a = -24; a <= 24; ++a)
      for (int b : {1, 2, 3, 5, 9}) {
        if (a == 0) continue;
        for (const S& t : {x * 2, x * 4, x * 3, x * 6, x * Q(1, 2), x * Q(2, 3), x * -2, x * -1, x * y * 2, wf::pow(x, I(2)) * 4}) {
          r.partial(wf::pow(x, I(2)) * y * Q(a, b), t, small_reps);
          r.partial(x * Q(a, b), t, small_reps);
          r.partial(x * Q(a, b) + y, t, small_reps);
        }
        r.partial(x * Q(a, b) + y * a + b, x + y, small_reps);
        r.partial(x * Q(a, b) + y * a + b, x * Q(a, b) + y * a, small_reps);
        r.partial(x * Q(a, b) + y + a, y + a, small_reps);
        r.partial(x * Q(a, b) + y + a, y + b, small_reps);
      }
    std::vector<S> terms{names[0], names[1] * 2, names[2], names[3] * names[4], wf::sin(names[5]), names[6] * Q(-1, 2), wf::pow(names[7], I(2)), names[8], wf::constants::pi * names[9], x, y * 3, fnv(o.f, {x})};
    for (std::size_t n = 2; n <= terms.size(); ++n)
      for (std::size_t k = 2; k <= n; ++k)
        for (std::size_t off = 0; off < n; off += 3) {
          std::vector<S> a(terms.begin(), terms.begin() + n), b;
          for (std::size_t i = 0; i < k; ++i) b.push_back(a[(off + i * 5) % n]);
          const S in = wf::addition::from_operands(a) + 2, t = wf::addition::from_operands(b);
          const S inp = wf::multiplication::from_operands(a), tp = wf::multiplication::from_operands(b);
          for (const S& q : {in, wf::sin(in) * in, wf::pow(in, I(3)) + in}) r.partial(q, t, small_reps);
          for (const S& q : {inp, wf::sin(inp) + inp, wf::pow(inp, I(3)), inp * in}) r.partial(q, tp, small_reps);
        }
    // lists of n pairs: chains, cycles, swaps, constants
    for (std::size_t n = 3; n <= 10; ++n) {
      std::vector<S> a(terms.begin(), terms.begin() + 10);
      const S in = wf::addition::from_operands(a) * wf::cos(names[0] * names[n - 1]) + wf::where(v.r < v.s, names[1], names[n - 2]);
      for (int kind = 0; kind < 9; ++kind) {
        std::vector<std::pair<S, S>> l;
        for (std::size_t i = 0; i < n; ++i) {
          const S t = names[kind % 2 ? n - 1 - i : i];
          const std::size_t at = kind % 2 ? n - 1 - i : i;
          switch (kind / 2) {
            case 0: l.push_back({t, names[(at + 1) % n]}); break;
            case 1: l.push_back({t, I(static_cast<int>(i) + 2)}); break;
            case 2: l.push_back({t, i % 2 ? names[(at + 3) % n] : x}); break;
            case 3: l.push_back({t, i + 1 == n ? x * y : Q(static_cast<int>(i) + 1, 3)}); break;
            default: l.push_back({t, names[9 - at]}); break;
          }
        }
        r.list(in, l);
        l.push_back({x, y});
        r.list(in * x, l);
        l.push_back({o.field(1), z});
        r.list(in * o.field(1), l);
      }
    }
  }
  // booleans
  const std::vector<wf::boolean_expr> bt{v.r < v.s, v.s < v.r, v.r <= v.s, v.r == v.s, v.r < I(0), v.r < I(1), v.r <= I(2), wf::operator<(I(1), v.r)};
  std::vector<wf::boolean_expr> br = bt;
  br.push_back(wf::constants::boolean_true);
  br.push_back(wf::constants::boolean_false);
  for (const S& in : p.v)
    if (Run::relational_inside(in))
      for (auto& t : bt)
        for (auto& q : br) r.boolean(in, t, q);
}
}  // namespace
int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
