// C06: collect, distribute and eval preserve the value; their results have the promised form.
#include "pool.h"
#include "wf/collect.h"
#include "wf/distribute.h"
#include "wf/evaluate.h"
using namespace h;

namespace {
Vars v;
Opaque o;

bool is_number(const S& q) { return q.is_type<wf::integer_constant, wf::rational_constant, wf::float_constant>(); }

struct Run {
  ex::Explorer& e;
  Context c;
  explicit Run(ex::Explorer& e_) : e(e_), c(points(v, e_.thorough ? 36 : 18)) {}

  Vec skip_bad(Vec want, const S& got) const {
    const VecP gv = c.eval(got);
    for (std::size_t i = 0; i < want.size(); ++i)
      if (!want[i].is_ok() || (!(*gv)[i].is_ok() && want[i].maybe_zero())) want[i] = V::bad(ref::NOISE);
    return want;
  }
  void value(const S& in, const S& out, const std::string& key) {
    const VecP w = c.eval(in);
    check_value(e, c, skip_bad(*w, out), out, key, false);
  }

  static std::pair<S, S> base_exp(const S& q) { return wf::as_base_and_exp(q); }

  void collect(const S& in, const std::vector<S>& terms) {
    if (!e.next()) return;
    auto name = [&] {
      std::string s = "collect(" + in.to_string() + ", [";
      for (auto& t : terms) s += t.to_string() + ", ";
      return s + "])";
    };
    e.sample(name);
    const std::string key = name();
    try {
      const S out = wf::collect_many(in, terms);
      e.state(state_hash(out));
      value(in, out, key);
      if (terms.size() == 1 && !wf::collect(in, terms[0]).is_identical_to(out)) e.violation(key, key + ": collect and collect_many disagree");
      // In every sum each power of the first term occurs once; below, the coefficient of that power
      // has each power of the second term once, ...
      // (The latter only if the input has no factors that are sums: their addends are not searched.)
      bool bad = false, first = false;
      auto sums = [&](const S& q) {
        if (const auto* m = wf::get_if<const wf::multiplication>(q))
          for (const S& u : *m) first = first || u.is_type<wf::addition>();
        return !first;
      };
      walk(in, sums);
      auto f = [&](const S& q) {
        if (const auto* a = wf::get_if<const wf::addition>(q)) check_sum(std::vector<S>(a->begin(), a->end()), first ? std::vector<S>{terms[0]} : terms, 0, bad);
        return !bad;
      };
      walk(out, f);
      if (bad) e.violation(key, key + ": terms left to collect in " + out.to_string());
      // every term is a factor of the result's addends: nothing to collect leaves the input alone
      bool any = false;
      for (const S& t : terms) any = any || contains(in, t);
      if (!any && !out.is_identical_to(in)) e.violation(key, key + ": none of the terms occurs, but the result is " + out.to_string());
    } catch (const std::exception& x) {
      e.violation(key, key + " raised " + x.what());
    }
  }
  void check_sum(const std::vector<S>& addends, const std::vector<S>& terms, std::size_t k, bool& bad) {
    if (k == terms.size()) return;
    std::vector<S> exps;
    std::vector<S> rest;
    for (const S& a : addends) {
      std::vector<S> factors{a};
      if (const auto* m = wf::get_if<const wf::multiplication>(a)) factors.assign(m->begin(), m->end());
      bool found = false;
      for (const S& q : factors) {
        const auto [b, x] = base_exp(q);
        if (b.is_identical_to(terms[k])) {
          for (const S& y : exps)
            if (y.is_identical_to(x)) bad = true;
          exps.push_back(x);
          found = true;
        }
      }
      if (!found) rest.push_back(a);
    }
    check_sum(rest, terms, k + 1, bad);
  }

  void distribute(const S& in) {
    if (!e.next()) return;
    const std::string key = "distribute(" + in.to_string() + ")";
    e.sample([&] { return key; });
    try {
      const S out = wf::distribute(in);
      e.state(state_hash(out));
      value(in, out, key);
      bool bad = false;
      auto f = [&](const S& q) {
        if (const auto* m = wf::get_if<const wf::multiplication>(q)) {
          for (const S& u : *m)
            if (u.is_type<wf::addition>()) bad = true;
        } else if (const auto* w = wf::get_if<const wf::power>(q)) {
          if (w->base().is_type<wf::addition>() && w->exponent().is_type<wf::integer_constant>() && w->exponent().is_type<wf::integer_constant>() && wf::get<const wf::integer_constant>(w->exponent()).is_positive()) bad = true;
        }
        return !bad;
      };
      walk(out, f);
      if (bad) e.violation(key, key + ": an unexpanded product is left in " + out.to_string());
      bool sum_inside_product = false;
      auto g = [&](const S& q) {
        if (q.is_type<wf::multiplication>() || q.is_type<wf::power>()) {
          auto k = [&](const S& u) {
            if (u.is_type<wf::addition>()) sum_inside_product = true;
            return !sum_inside_product;
          };
          walk(q, k);
        }
        return !sum_inside_product;
      };
      walk(in, g);
      if (!sum_inside_product && !out.is_identical_to(in)) {
        e.count["changed_without_products"]++;
        e.violation(key, key + " has nothing to expand, but the result is " + out.to_string());
      }
    } catch (const std::exception& x) {
      e.violation(key, key + " raised " + x.what());
    }
  }

  void eval(const S& in) {
    if (!e.next()) return;
    const std::string key = "eval(" + in.to_string() + ")";
    e.sample([&] { return key; });
    try {
      const S out = wf::evaluate(in);
      e.state(state_hash(out));
      value(in, out, key);
      bool exact = false;
      auto f = [&](const S& q) {
        if (q.is_type<wf::rational_constant, wf::symbolic_constant>()) exact = true;
        return !exact;
      };
      walk(out, f);
      if (exact) e.violation(key, key + ": an exact constant is left in " + out.to_string());
      const VecP w = c.eval(in);
      bool closed = true;
      auto h = [&](const S& q) {
        if (!(is_number(q) || q.is_type<wf::addition, wf::multiplication, wf::power, wf::built_in_function_invocation, wf::symbolic_constant>() || q.is_type<wf::conditional, wf::iverson_bracket, wf::stop_derivative>())) closed = false;
        return closed;
      };
      walk(in, h);
      if (closed && (*w)[0].is_ok() && (*w)[0].v.imag() == 0 && !contains_type<wf::undefined>(in)) {
        ++e.count["closed"];
        if (!is_number(out) && !contains(out, wf::constants::imaginary_unit)) e.violation(key, key + " is not a number: " + out.to_string());
      }
    } catch (const wf::type_error& x) {
      if (!contains_type<wf::derivative>(in) && !contains_type<wf::complex_infinity>(in)) e.violation(key, key + " raised " + x.what());
    } catch (const wf::arithmetic_error& x) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(key, key + " raised " + x.what());
    }
  }
};

void body(ex::Explorer& e) {
  Run r(e);
  Pool p;
  p.add_all(kinds(v, o));
  const S x = v.x, y = v.y, z = v.z;
  // expressions to collect from: all sums of up to three products of the factors below
  std::vector<S> prods;
  {
    Pool q;
    const std::vector<S> factors{x, wf::pow(x, I(2)), wf::pow(x, I(-1)), wf::sqrt(x), y, wf::pow(y, I(2)), z, I(3), S(0.5), wf::sin(x), x + y, wf::pow(x, y), wf::pow(x + 1, I(2)), fnv(o.f, {x}), o.field(0), wf::constants::pi};
    q.add(I(1));
    q.add_all(factors);
    for (const S& a : factors)
      for (const S& b : factors) q.add(a * b);
    if (e.thorough) {
      const auto two = q.v;
      for (const S& a : two)
        for (const S& b : {x, y, wf::pow(x, I(2)), I(3)}) q.add(a * b);
    }
    prods = q.v;
  }
  Pool sums;
  for (std::size_t i = 0; i < prods.size(); ++i)
    for (std::size_t j = i; j < prods.size(); ++j) {
      sums.add(prods[i] + prods[j]);
      sums.add(prods[i] - prods[j] * 2);
      for (const S& third : {x, x * y, wf::pow(x, I(2)) * z}) sums.add(prods[i] + prods[j] + third);
    }
  Pool nested;
  nested.add_all({wf::sin(x * y + x * z), wf::pow(x * y + x * z, I(2)), (x * y + x * z) * y + y * z, wf::where(v.r < v.s, x * y + x, x * 2 + x * y), fnv(o.f, {x * y + x}), wf::make_unevaluated(x * y + x * z) * x + x, dv(fnv(o.f, {x, y}), x) * x + x * 2, o.call_s(x * y + x) * x + x * 2, wf::abs(x * y + x * 2 + x * y * z), wf::iverson(v.r * v.p + v.r * v.s < I(0)), wf::pow(x, y) * z + wf::pow(x, y) * 2, wf::pow(x, y * 2) + wf::pow(x, y) * 3 + wf::pow(x, y)});
  nested.add_all(p.v);
  const std::vector<std::vector<S>> lists{{x}, {y}, {x, y}, {y, x}, {x, y, z}, {z, x}, {x + y}, {wf::sin(x)}, {wf::sin(x), x}, {fnv(o.f, {x})}, {fnv(o.f, {x}), y, x}, {o.field(0), x}, {wf::pow(x, I(2))}, {x * y}, {wf::constants::pi, x}, {x, x}};
  for (const auto& l : lists) {
    for (const S& in : sums.v) r.collect(in, l);
    for (const S& in : nested.v) r.collect(in, l);
  }
  // distribute
  const std::vector<S> facs{x, y, wf::pow(x, I(2)), I(2), Q(1, 3), S(0.5), x + y, x - y, x + 1, x + y + z, wf::sqrt(x), wf::sqrt(x + 1), wf::pow(x + 1, Q(-1, 2)), wf::pow(x + y, I(2)), wf::pow(x + y, I(3)), wf::pow(x + y, I(-1)), wf::pow(x + y, I(-2)), wf::pow(x + 1, Q(3, 2)), wf::pow(x + 1, Q(-3, 2)), wf::pow(x + 1, y), wf::pow(x + 1, Q(1, 3)), wf::pow(x + 1, Q(5, 3)), wf::sin(x * (y + 1)), wf::pow(x * (y + 1), z), wf::pow(x * (y + 1) + y * z * (x + 2), I(2)), fnv(o.f, {x * (y + 1)}), wf::make_unevaluated(x + y), wf::where(v.r < v.s, x * (y + 1), wf::pow(x + y, I(2))), wf::pow(x + wf::sqrt(y), I(2)), wf::pow(wf::sqrt(x + 1) + wf::sqrt(y), I(2)), wf::pow(x + wf::sqrt(y + 1), I(2)), wf::pow(x + y, I(4)), wf::pow(x + y * 2, I(5)), o.field(0) + 1, wf::pow(wf::pow(x + 1, I(2)) + y, I(2)), wf::pow(wf::pow(x + 1, Q(1, 2)) + 1, I(3)), wf::abs(x + 1), x * wf::constants::imaginary_unit + y};
  Pool d;
  d.add_all(p.v);
  d.add_all(facs);
  for (const S& a : facs)
    for (const S& b : facs) {
      d.add(a * b);
      d.try_add([&] { return a * b + a; });
      d.try_add([&] { return wf::pow(a * b, I(2)); });
      d.try_add([&] { return wf::pow(a * b, I(-1)); });
      d.try_add([&] { return wf::pow(a, b); });
      for (const S& q : facs)
        if (e.thorough) d.add(a * b * q);
        else if (&q - &facs[0] < 14) d.add((a * b) * q);
    }
  for (const S& in : sums.v) d.add(in);
  for (const S& in : d.v) r.distribute(in);
  // sizes: long sums with many exponents and many collected terms; large powers; products of many sums.
  {
    const S f = fnv(o.f, {x}), g = wf::sin(y), h = o.field(0);
    const std::vector<S> terms{x, y, z, f, g, h};
    const std::vector<S> cs{I(1), I(3), Q(-1, 2), v.r, v.p * 2, S(0.5), wf::constants::pi, v.r - v.p};
    for (std::size_t n = 3; n <= (e.thorough ? 30u : 18u); ++n)
      for (std::size_t kind = 0; kind < 12; ++kind) {
        std::vector<S> t;
        for (std::size_t i = 0; i < n; ++i) {
          const S a = terms[(i * (kind + 1)) % 6], b = terms[(i / 2 + kind) % 6];
          const int p = static_cast<int>((i * 3 + kind) % 7) - 2, q = static_cast<int>((i * 5 + kind * 2) % 5);
          const S pa = kind % 4 == 3 ? wf::pow(a, Q(p, 2)) : kind % 4 == 2 ? wf::pow(a, v.p * p + q) : wf::pow(a, I(p));
          t.push_back(cs[(i * 3 + kind) % cs.size()] * pa * wf::pow(b, I(q)));
        }
        const S in = wf::addition::from_operands(t);
        for (const auto& l : std::vector<std::vector<S>>{{x}, {y, x}, {x, y, z}, {z, f, x, y}, {g, h, f, z, y, x}, {h, x, g}}) {
          r.collect(in, l);
          r.collect(wf::cos(in) * in + x * in, l);
        }
      }
    for (int k = -13; k <= 13; ++k)
      for (const S& base : {x + 1, x - y, x * 2 + y * Q(1, 3), x + y + z, wf::sqrt(x) + y, wf::sqrt(x + 1) + 2}) {
        if (std::abs(k) > (base.is_identical_to(x + y + z) ? 9 : 13)) continue;
        for (int d : {1, 2, 3}) {
          if (d > 1 && k % d == 0) continue;
          r.distribute(wf::pow(base, Q(k, d)));
          r.distribute(wf::pow(base, Q(k, d)) * (x + 3) + y);
          r.distribute(wf::pow(base * (y + 2), Q(k, d)));
        }
      }
    const std::vector<S> fs{x + 1, y - 2, x + y, z * 2 + x, wf::sqrt(x) + 1, f + y, x - 1, wf::pow(y, I(-1)) + 3, h + x, wf::pow(x + y, I(2)), z + Q(1, 2), x * y + z};
    for (std::size_t n = 2; n <= 8; ++n)
      for (std::size_t start = 0; start < fs.size(); ++start)
        for (std::size_t stride : {1, 5, 7}) {
          std::vector<S> t;
          for (std::size_t i = 0; i < n; ++i) t.push_back(fs[(start + i * stride) % fs.size()]);
          r.distribute(wf::multiplication::from_operands(t));
          if (n < 6) {
            t.push_back(wf::pow(x, Q(1, 2)));
            t.push_back(Q(-3, 4));
            r.distribute(wf::sin(wf::multiplication::from_operands(t)) * (x + y) + wf::multiplication::from_operands(t) * v.r);
          }
        }
    for (std::size_t n = 3; n <= 24; ++n)
      for (std::size_t kind = 0; kind < 6; ++kind) {
        std::vector<S> t;
        for (std::size_t i = 0; i < n; ++i) {
          switch ((i * (kind + 1) + kind) % 6) {
            case 0: t.push_back(Q(static_cast<int>(i) + 1, 7)); break;
            case 1: t.push_back(wf::sqrt(I(static_cast<int>(i) + 2))); break;
            case 2: t.push_back(wf::constants::pi * Q(1, static_cast<int>(i) + 1)); break;
            case 3: t.push_back(wf::cos(Q(static_cast<int>(i), 3))); break;
            case 4: t.push_back(kind % 2 ? v.r * Q(1, 3) : wf::constants::euler); break;
            default: t.push_back(wf::pow(Q(2, static_cast<int>(i) + 3), Q(1, 3))); break;
          }
        }
        r.eval(wf::addition::from_operands(t));
        r.eval(wf::multiplication::from_operands(t));
      }
  }
  // eval: all number expressions to depth two, and the expressions with symbols
  Pool n;
  n.add_all(number_leaves());
  n.add_all({I(7), I(1000003), Q(22, 7), Q(-5, 3), S(1e10), S(-0.25), S(3.0)});
  const std::vector<S> n0 = n.v;
  grow1(n, n0);
  grow2(n, n0, n0);
  const std::vector<S> n1 = n.v;
  grow1(n, n1);
  if (e.thorough) grow2(n, n0, n1);
  for (const S& a : n0)
    for (const S& b : n0) {
      n.try_add([&] { return wf::max(a, b); });
      n.try_add([&] { return wf::atan2(a, b); });
      n.try_add([&] { return wf::where(a < b, a + wf::constants::pi, b); });
      n.try_add([&] { return wf::iverson(a <= b); });
      n.try_add([&] { return wf::make_unevaluated(a + wf::sqrt(b)); });
      n.try_add([&] { return wf::where(wf::sqrt(a) < wf::constants::pi + 2, a, b + wf::constants::euler); });
    }
  for (const S& in : n.v) r.eval(in);
  for (const S& in : p.v) r.eval(in);
  for (const S& in : d.v) r.eval(in);
}
}  // namespace
int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
