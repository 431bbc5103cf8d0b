// C01: arithmetic construction preserves value.
#include "common.h"
using namespace h;

namespace {
struct Op {
  const char* name;
  S (*build)(const S&, const S&);
  V (*mean)(const V&, const V&);
};
S b_add(const S& a, const S& b) { return a + b; }
S b_sub(const S& a, const S& b) { return a - b; }
S b_mul(const S& a, const S& b) { return a * b; }
S b_div(const S& a, const S& b) { return a / b; }
S b_pow(const S& a, const S& b) { return wf::pow(a, b); }
V m_sub(const V& a, const V& b) { return ref::add(a, ref::neg(b)); }
V m_div(const V& a, const V& b) { return ref::mul(a, ref::inv(b)); }
const Op ops[] = {{"+", b_add, ref::add}, {"-", b_sub, m_sub}, {"*", b_mul, ref::mul}, {"/", b_div, m_div}, {"**", b_pow, ref::pow_}};

Vars vars;

struct Run {
  ex::Explorer& e;
  Context c;
  explicit Run(ex::Explorer& e_, int npts) : e(e_), c(points(vars, npts)) {}

  Vec combine(const Op& op, const S& a, const S& b) const {
    const VecP u = c.eval(a), v = c.eval(b);
    Vec w(c.n);
    for (std::size_t i = 0; i < c.n; ++i) w[i] = op.mean((*u)[i], (*v)[i]);
    return w;
  }
  static std::string name(const Op& op, const S& a, const S& b) {
    return "(" + a.to_string() + ") " + op.name + " (" + b.to_string() + ")";
  }
  void binary(const Op& op, const S& a, const S& b) {
    if (!e.next()) return;
    e.sample([&] { return name(op, a, b); });
    try {
      const S r = op.build(a, b);
      e.state(state_hash(r));
      const VecP g = c.eval_nomemo(r);
      const Vec w = combine(op, a, b);
      uint64_t decided = 0;
      for (std::size_t i = 0; i < c.n; ++i) {
        const Cmp q = ref::compare_values(w[i], (*g)[i]);
        if (q == Cmp::skipped) continue;
        ++decided;
        if (q == Cmp::differ) {
          check_value(e, c, w, r, name(op, a, b));
          break;
        }
      }
      e.count["values_compared"] += decided;
      if (decided) ++e.count["transitions_decided"];
    } catch (const wf::arithmetic_error&) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(name(op, a, b), std::string("unexpected exception: ") + x.what());
    }
  }
  void nary(bool add, const std::vector<S>& t) {
    if (!e.next()) return;
    auto nm = [&] {
      std::string s = add ? "sum(" : "product(";
      for (auto& q : t) s += q.to_string() + ", ";
      return s + ")";
    };
    e.sample(nm);
    try {
      const S r = add ? wf::addition::from_operands(t) : wf::multiplication::from_operands(t);
      e.state(state_hash(r));
      Vec w(c.n, V::ok(add ? 0 : 1));
      for (auto& q : t) {
        const VecP v = c.eval(q);
        for (std::size_t i = 0; i < c.n; ++i) w[i] = add ? ref::add(w[i], (*v)[i]) : ref::mul(w[i], (*v)[i]);
      }
      check_value(e, c, w, r, nm());
    } catch (const wf::arithmetic_error&) {
      ++e.count["arithmetic_errors"];
    } catch (const std::exception& x) {
      e.violation(nm(), std::string("unexpected exception: ") + x.what());
    }
  }
};

// All distinct results of one operation on two members of `a`, `b`, simplest first.
std::vector<S> grow(const std::vector<S>& a, const std::vector<S>& b) {
  std::vector<S> out;
  std::unordered_map<S, int, ref::Hash, ref::Eq> seen;
  for (const S& u : a)
    for (const S& v : b)
      for (const Op& op : ops)
        for (int k = 0; k < 2; ++k) {
          try {
            S r = k ? op.build(v, u) : op.build(u, v);
            if (seen.emplace(r, 1).second) out.push_back(r);
          } catch (const std::exception&) {
          }
        }
  return out;
}

void body(ex::Explorer& e) {
  Run t(e, 60);
  const S zoo = wf::constants::complex_infinity, und = wf::constants::undefined, im = wf::constants::imaginary_unit;
  const S pi = wf::constants::pi, eu = wf::constants::euler;
  const auto& v = vars;

  // A. Atoms x atoms, then one further operation with an atom on either side (all operations).
  std::vector<S> atoms{v.x, v.y, v.r, v.p, v.n, I(0), I(1), I(-1), I(2), I(-2), I(3), Q(1, 2), Q(-1, 2), Q(1, 3), Q(-3, 2), Q(2, 3), S(0.5), S(-1.5), S(2.25), pi, eu, im, zoo, und};
  for (const S& q : {v.z, v.s, I(4), I(-3), I(6), Q(-1, 3), Q(5, 2), Q(-5, 3), Q(3, 4), S(-0.5), S(3.0), wf::exp(v.x), wf::cos(v.x), wf::log(v.p), wf::abs(v.x), wf::where(v.r < v.s, v.x, I(2)), wf::iverson(v.r < I(1))}) atoms.push_back(q);
  if (e.thorough) {
    for (const S& q : {I(5), I(-4), I(12), Q(7, 6), Q(-4, 3), S(0.25), S(-4.0), S(1e-3), wf::log(v.x), wf::sin(v.r), wf::signum(v.r), wf::floor(v.r), wf::atan2(v.r, v.s)}) atoms.push_back(q);
  }
  for (const S& a : atoms)
    for (const S& b : atoms)
      for (const Op& op : ops) t.binary(op, a, b);
  const std::vector<S> s1 = grow(atoms, atoms);
  e.count["pool_depth1"] = e.shard == 0 ? s1.size() : 0;
  for (const S& a : s1)
    for (const S& b : atoms)
      for (const Op& op : ops) {
        t.binary(op, a, b);
        t.binary(op, b, a);
      }

  // B. Depth-1 x depth-1 over a reduced alphabet.
  std::vector<S> few{v.x, v.r, v.p, I(2), I(-1), Q(1, 2), Q(-3, 2), im};
  few.push_back(v.y);
  few.push_back(I(-3));
  few.push_back(Q(1, 3));
  few.push_back(S(0.5));
  few.push_back(pi);
  if (e.thorough)
    for (const S& q : {v.n, I(12), Q(-2, 3), S(-1.5), I(0), v.z}) few.push_back(q);
  const std::vector<S> f1 = grow(few, few);
  for (const S& a : f1)
    for (const S& b : f1)
      for (const Op& op : ops) t.binary(op, a, b);

  // C. Depth 3 chains: ((a op b) op c) op d over a small alphabet.
  {
    std::vector<S> tiny{v.x, v.r, I(-2), Q(1, 2), im};
    tiny.push_back(v.p);
    tiny.push_back(I(3));
    tiny.push_back(Q(-2, 3));
    if (e.thorough)
      for (const S& q : {v.n, S(0.5), I(-1), pi}) tiny.push_back(q);
    const std::vector<S> g1 = grow(tiny, tiny);
    const std::vector<S> g2 = grow(g1, tiny);
    e.count["pool_depth2"] = e.shard == 0 ? g2.size() : 0;
    for (const S& a : g2)
      for (const S& b : tiny)
        for (const Op& op : ops) {
          t.binary(op, a, b);
          t.binary(op, b, a);
        }
    // Depth 4 over the smallest alphabet.
    std::vector<S> least{v.x, v.n, I(-2), Q(1, 2)};
    if (e.thorough) {
      least.push_back(v.r);
      least.push_back(im);
    }
    const std::vector<S> h1 = grow(least, least), h2 = grow(h1, least);
    if (e.thorough) {
      const std::vector<S> h3 = grow(h2, least);
      e.count["pool_depth3"] = e.shard == 0 ? h3.size() : 0;
      for (const S& a : h3)
        for (const S& b : least)
          for (const Op& op : ops) {
            t.binary(op, a, b);
            t.binary(op, b, a);
          }
    }
    // (depth 2) op (depth 1)
    for (const S& a : h2)
      for (const S& b : h1)
        for (const Op& op : ops) {
          t.binary(op, a, b);
          if (e.thorough) t.binary(op, b, a);
        }
  }

  // D. Radicals: integer and rational bases with rational exponents; all pairwise products,
  // quotients, sums and rational powers of them.
  {
    std::vector<S> rad;
    std::unordered_map<S, int, ref::Hash, ref::Eq> seen;
    std::vector<S> bases, exps;
    for (int b : {2, 3, 4, 5, 6, 8, 9, 12, 18, 24, 27, 32, 36, 72, 97, 100, -1, -2, -3, -4, -6, -8, -12, -27}) bases.push_back(I(b));
    for (auto [a, b] : {std::pair{1, 2}, {2, 3}, {3, 2}, {4, 9}, {8, 27}, {5, 12}, {-1, 2}, {-2, 3}, {-8, 27}, {7, 3}, {1, 72}}) bases.push_back(Q(a, b));
    for (auto [a, b] : {std::pair{1, 2}, {-1, 2}, {3, 2}, {-3, 2}, {1, 3}, {2, 3}, {-1, 3}, {-2, 3}, {4, 3}, {-4, 3}, {5, 3}, {1, 4}, {3, 4}, {-3, 4}, {5, 2}, {-5, 2}, {7, 3}, {-7, 4}, {1, 6}, {5, 6}, {-5, 6}, {7, 6}})
      exps.push_back(Q(a, b));
    exps.push_back(I(2));
    exps.push_back(I(-3));
    exps.push_back(S(0.5));
    exps.push_back(S(-1.5));
    for (const S& b : bases)
      for (const S& x : exps) {
        t.binary(ops[4], b, x);
        const S r = wf::pow(b, x);
        if (seen.emplace(r, 1).second) rad.push_back(r);
      }
    e.count["pool_radicals"] = e.shard == 0 ? rad.size() : 0;
    const std::size_t lim = rad.size();
    for (std::size_t i = 0; i < lim; ++i)
      for (std::size_t j = 0; j < lim; ++j) {
        t.binary(ops[2], rad[i], rad[j]);
        t.binary(ops[3], rad[i], rad[j]);
        if (e.thorough) t.binary(ops[0], rad[i], rad[j]);
      }
    for (const S& a : rad) {
      for (const S& x : exps) t.binary(ops[4], a, x);
      for (const S& x : {v.x, v.r, v.p, im, pi, S(0.5), I(-6), Q(3, 4)}) {
        for (const Op& op : ops) {
          t.binary(op, a, x);
          t.binary(op, x, a);
        }
      }
    }
  }

  // E. Powers of products / powers of powers with coefficients: ((c * u^a) * w^b)^k, for all sets.
  {
    std::vector<S> coef{I(1), I(-1), I(2), I(-4), I(12), Q(1, 4), Q(-2, 3), S(0.25), S(-2.0), im, pi};
    std::vector<S> us{v.x, v.z, v.r, v.p, v.n, wf::abs(v.x), wf::abs(v.r), v.x + I(1), v.r - v.p, wf::exp(v.x), wf::pow(v.r, I(2))};
    std::vector<S> ae{I(1), I(2), I(-1), I(3), Q(1, 2), Q(-1, 2), Q(3, 2), Q(1, 3), v.r, v.x};
    std::vector<S> ke{I(2), I(-1), I(-2), I(3), Q(1, 2), Q(-1, 2), Q(3, 2), Q(2, 3), Q(1, 4), S(0.5), S(-1.5), v.r, v.x, im};
    std::vector<S> ws{I(1), v.y, v.p, v.n, wf::pow(v.r, Q(1, 2)), v.r};
    for (const S& c0 : coef)
      for (const S& u : us)
        for (const S& a : ae) {
          const S ua = wf::pow(u, a);
          t.binary(ops[4], u, a);
          for (const S& w : ws) {
            const S prod = wf::multiplication::from_operands(std::vector<S>{c0, ua, w});
            t.nary(false, {c0, ua, w});
            for (const S& k : ke) t.binary(ops[4], prod, k);
          }
        }
  }

  // F. Operand lists: all multisets (with order) up to length 4 from a pool with collisions.
  {
    std::vector<S> pool{v.x, -v.x, v.x * 2, v.y, v.x * v.y, I(3), I(-1), Q(1, 2), S(0.5), im, wf::pow(v.x, I(2)), wf::pow(v.x, I(-1)), wf::pow(I(2), Q(1, 2)), v.x + v.y, (v.x + v.y) * 2, wf::pow(v.x + v.y, I(-1)), wf::pow(v.x, Q(1, 2)), wf::pow(I(2), Q(-1, 2)), I(6), -im, I(0)};
    {
      for (const S& q : {zoo, und, pi, wf::pow(v.x, v.y), wf::pow(I(6), Q(1, 3)), S(-2.5), Q(-2, 3), v.r}) pool.push_back(q);
    }
    const std::size_t n = pool.size();
    for (std::size_t a = 0; a < n; ++a)
      for (std::size_t b = 0; b < n; ++b)
        for (std::size_t c = 0; c < n; ++c) {
          t.nary(true, {pool[a], pool[b], pool[c]});
          t.nary(false, {pool[a], pool[b], pool[c]});
          for (std::size_t d = c; d < n; d += (e.thorough ? 1 : 2)) {
            t.nary(true, {pool[a], pool[b], pool[c], pool[d]});
            t.nary(false, {pool[a], pool[b], pool[c], pool[d]});
          }
        }
    // Long lists: every length up to 40 for each stride through the pool.
    for (std::size_t len = 5; len <= (e.thorough ? 64u : 40u); ++len)
      for (std::size_t stride = 1; stride < 12; ++stride) {
        std::vector<S> l;
        for (std::size_t i = 0; i < len; ++i) {
          const std::size_t k = (i * stride + len) % (n + 6);
          l.push_back(k < n ? pool[k] : S("v" + std::to_string((i * stride) % 23), wf::number_set::unknown));
        }
        Vec w;
        for (std::size_t k = 0; k < 23; ++k) {
          const S var("v" + std::to_string(k), wf::number_set::unknown);
          if (!t.c.lookup(var)) {
            Vec q;
            for (std::size_t i = 0; i < t.c.n; ++i) q.push_back(V::ok(C{double((i * 5 + k * 3) % 17) / 8 - 1, double((i * 3 + k) % 5) / 4 - 0.5}));
            t.c.set(var, q);
          }
        }
        std::vector<S> nz;
        for (auto& q : l)
          if (!q.is_identical_to(I(0))) nz.push_back(q);
        t.nary(true, l);
        t.nary(false, nz);
        // the same with all-distinct plain symbols, plus a repeated one
        std::vector<S> d;
        for (std::size_t i = 0; i < len; ++i) d.push_back(S("v" + std::to_string((i * stride) % 23), wf::number_set::unknown));
        t.nary(true, d);
        t.nary(false, d);
      }
  }

  // G. Powers of i, of e, of 0/1/-1 and infinities with a wide range of exponents.
  {
    std::vector<S> bs{im, -im, eu, I(0), I(1), I(-1), zoo, und, S(0.0), S(1.0), S(-1.0), S(0.25), S(-4.0), pi, im * 2, im + 1};
    std::vector<S> xs;
    for (int k = -9; k <= 9; ++k) xs.push_back(I(k));
    for (int k = -9; k <= 9; k += 2)
      for (int d : {2, 3, 4, 5}) xs.push_back(Q(k, d));
    for (double d : {0.0, 0.5, -0.5, 1.0, 2.0, -3.0, 1.75, -2.25}) xs.push_back(S(d));
    for (const S& q : {im, -im, im * pi, im * pi / 2, pi, v.x, v.r, v.p, v.n, zoo, und, wf::log(v.x), wf::log(v.x) * 2, wf::log(I(3)), im * wf::log(I(2))}) xs.push_back(q);
    for (const S& b : bs)
      for (const S& x : xs)
        for (const Op& op : ops) {
          t.binary(op, b, x);
          t.binary(op, x, b);
        }
  }
}
}  // namespace

int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
