// C09: LU factorisation and determinants are exact.
#include <algorithm>
#include <numeric>

#include "pool.h"
using namespace h;
using M = wf::matrix_expr;
using wf::index_t;

namespace {
Vars v;
using Mat = std::vector<std::vector<V>>;

struct Run {
  ex::Explorer& e;
  Context c;
  S a{"a", wf::number_set::real}, b{"b", wf::number_set::real}, d{"d", wf::number_set::real};
  std::vector<S> sym;  // distinct symbols for patterns
  explicit Run(ex::Explorer& e_) : e(e_) {
    const int n = 4;
    c.n = static_cast<std::size_t>(n);
    auto bind = [&](const S& s, int k) {
      Vec w;
      for (int i = 0; i < n; ++i) w.push_back(V::ok(C{((k * 29 + i * 17 + (k * k * 3) % 13) % 31 - 14.5) / 4.0, 0}));
      c.set(s, std::move(w));
    };
    bind(a, 1);
    bind(b, 2);
    bind(d, 3);
    for (int i = 0; i < 49; ++i) {
      sym.push_back(S{"m" + std::to_string(i), wf::number_set::real});
      bind(sym.back(), 4 + i);
    }
  }
  static std::string text(index_t r, index_t cn, const std::vector<S>& el) {
    std::string s = std::to_string(r) + "x" + std::to_string(cn) + "[";
    for (const S& x : el) s += x.to_string() + ", ";
    return s + "]";
  }
  // Leibniz determinant of the values at point i.
  static V leibniz(const std::vector<V>& m, std::size_t n) {
    std::vector<std::size_t> p(n);
    std::iota(p.begin(), p.end(), 0);
    V sum = V::ok(C{0, 0});
    do {
      int inv = 0;
      for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = i + 1; j < n; ++j) inv += p[i] > p[j];
      V t = V::ok(C{inv % 2 ? -1.0 : 1.0, 0});
      bool zero = false;
      for (std::size_t i = 0; i < n && !zero; ++i) {
        zero = m[i * n + p[i]].zero();
        t = ref::mul(t, m[i * n + p[i]]);
      }
      if (!zero) sum = ref::add(sum, t);
    } while (std::next_permutation(p.begin(), p.end()));
    return sum;
  }
  static bool number(const S& s, int& out) {
    if (const auto* i = wf::get_if<const wf::integer_constant>(s)) {
      out = static_cast<int>(static_cast<std::int64_t>(i->value()));
      return true;
    }
    return false;
  }
  void matrix(index_t r, index_t cn, const std::vector<S>& el) {
    if (!e.next()) return;
    const std::string key = text(r, cn, el);
    e.sample([&] { return key; });
    const std::size_t R = static_cast<std::size_t>(r), N = static_cast<std::size_t>(cn);
    try {
      const M m = M::create(r, cn, el);
      std::vector<VecP> vals;
      for (const S& s : el) vals.push_back(c.eval(s));
      auto at = [&](std::size_t k) {
        std::vector<V> w;
        for (const VecP& x : vals) w.push_back((*x)[k]);
        return w;
      };
      if (r == cn) {
        const S det = wf::determinant(m);
        e.state(state_hash(det));
        Vec want;
        const VecP got = c.eval(det);
        for (std::size_t k = 0; k < c.n; ++k) {
          want.push_back(leibniz(at(k), R));
          // a vanishing pivot: the elimination has no value at this point
          if (!(*got)[k].is_ok()) {
            ++e.count["vanishing_pivots"];
            want.back() = V::bad(ref::NOISE);
          }
        }
        check_value(e, c, want, det, "determinant " + key, false);
        bool numeric = true;
        int dummy;
        for (const S& s : el) numeric = numeric && number(s, dummy);
        if (numeric) {
          const V w = want[0];
          const VecP g = c.eval(det);
          if (!(*g)[0].is_ok()) e.violation("determinant " + key, "determinant " + key + " is " + det.to_string());
          if (!det.is_type<wf::integer_constant>()) e.violation("determinant " + key, "determinant " + key + " is not an integer: " + det.to_string());
        }
      } else {
        must_fail("determinant " + key, [&] { (void)wf::determinant(m); });
      }
      if (r > cn) {
        must_fail("factorise " + key, [&] { (void)wf::factorize_full_piv_lu(m); });
        return;
      }
      const auto [P, L, U, Q] = wf::factorize_full_piv_lu(m);
      const std::string f = "P*L*U*Q of " + key;
      if (P.rows() != r || P.cols() != r || L.rows() != r || L.cols() != r || U.rows() != r || U.cols() != cn || Q.rows() != cn || Q.cols() != cn) {
        e.violation(f, f + ": shapes");
        return;
      }
      // permutations
      std::vector<std::size_t> pr(R), pq(N);
      if (!permutation(P, pr)) e.violation(f, f + ": P is not a permutation " + P.to_string());
      if (!permutation(Q, pq)) e.violation(f, f + ": Q is not a permutation " + Q.to_string());
      bool plain = true;
      for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < R; ++j) {
          const S& x = L(static_cast<index_t>(i), static_cast<index_t>(j));
          if (i == j && !wf::is_one(x)) e.violation(f, f + ": L does not have a unit diagonal " + L.to_string());
          if (j > i && !wf::is_zero(x)) e.violation(f, f + ": L is not lower triangular " + L.to_string());
        }
      for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < i; ++j)
          if (!wf::is_zero(U(static_cast<index_t>(i), static_cast<index_t>(j)))) e.violation(f, f + ": U is not upper triangular " + U.to_string());
      (void)plain;
      // A[i][j] = sum_k P L U Q: row i of P picks a row of L, column j of Q a column of U
      std::vector<VecP> lv, uv;
      uint64_t z = 7;
      for (const S& s : L.to_vector()) lv.push_back(c.eval(s));
      for (const S& s : U.to_vector()) {
        uv.push_back(c.eval(s));
        z = ex::Explorer::mix(z * 31 + state_hash(s));
      }
      e.state(z);
      std::vector<std::size_t> qcol(N);
      for (std::size_t k = 0; k < N; ++k) qcol[pq[k]] = k;  // Q(k, pq[k]) = 1
      uint64_t decided = 0;
      for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < N; ++j)
          for (std::size_t k = 0; k < c.n; ++k) {
            V s = V::ok(C{0, 0});
            for (std::size_t q = 0; q < R; ++q) {
              const V& l = (*lv[pr[i] * R + q])[k];
              const V& u = (*uv[q * N + qcol[j]])[k];
              if (l.is_ok() && l.zero()) continue;
              s = ref::add(s, ref::mul(l, u));
            }
            if (!s.is_ok()) {
              ++e.count["vanishing_pivots"];
              continue;
            }
            const auto cmp = ref::compare_values((*vals[i * N + j])[k], s, false);
            if (cmp == ref::Cmp::skipped) continue;
            ++decided;
            if (cmp == ref::Cmp::differ) {
              e.violation(f, f + ": element " + std::to_string(i) + "," + std::to_string(j) + " is " + ref::show(s) + " instead of " + ref::show((*vals[i * N + j])[k]) + "; P=" + P.to_string() + " L=" + L.to_string() + " U=" + U.to_string() + " Q=" + Q.to_string());
              return;
            }
          }
      e.count["values_compared"] += decided;
      if (decided) ++e.count["transitions_decided"];
    } catch (const std::exception& x) {
      e.violation(key, key + " raised " + x.what());
    }
  }
  template <typename F>
  void must_fail(const std::string& key, F&& f) {
    ++e.count["transitions_decided"];
    try {
      f();
      e.violation(key, key + " did not raise an error");
    } catch (const wf::dimension_error&) {
    } catch (const std::exception& x) {
      e.violation(key, key + " raised another error: " + x.what());
    }
  }
  static bool permutation(const M& m, std::vector<std::size_t>& out) {
    std::vector<int> cols(out.size(), 0);
    for (std::size_t i = 0; i < out.size(); ++i) {
      int ones = 0;
      for (std::size_t j = 0; j < out.size(); ++j) {
        const S& x = m(static_cast<index_t>(i), static_cast<index_t>(j));
        if (wf::is_one(x)) {
          ++ones;
          ++cols[j];
          out[i] = j;
        } else if (!wf::is_zero(x)) {
          return false;
        }
      }
      if (ones != 1) return false;
    }
    return std::all_of(cols.begin(), cols.end(), [](int k) { return k == 1; });
  }
  // all matrices over an alphabet
  // (optionally only those with at most `zeros` zeros or at most `others` other elements)
  void all(index_t r, index_t cn, const std::vector<S>& al, int zeros = 99, int others = 99) {
    const std::size_t n = static_cast<std::size_t>(r * cn), k = al.size();
    double total = std::pow(static_cast<double>(k), static_cast<double>(n));
    for (std::size_t q = 0; q < static_cast<std::size_t>(total); ++q) {
      std::size_t w = q;
      if (zeros < 99) {
        int z = 0;
        for (std::size_t i = 0; i < n; ++i, w /= k) z += w % k == 0;
        if (z > zeros && static_cast<int>(n) - z > others) continue;
        w = q;
      }
      std::vector<S> el;
      for (std::size_t i = 0; i < n; ++i) {
        el.push_back(al[w % k]);
        w /= k;
      }
      matrix(r, cn, el);
    }
  }
  // all zero patterns of a matrix of distinct symbols
  void patterns(index_t r, index_t cn) {
    const std::size_t n = static_cast<std::size_t>(r * cn);
    for (std::size_t q = 0; q < (std::size_t{1} << n); ++q) {
      std::vector<S> el;
      for (std::size_t i = 0; i < n; ++i) el.push_back((q >> i) & 1 ? sym[i] : I(0));
      matrix(r, cn, el);
    }
  }
  // all zero patterns of a numeric matrix with distinct elements
  void numeric_patterns(index_t r, index_t cn, int zeros = 99, int others = 99) {
    static const int vals[] = {2, -3, 5, 1, 7, -2, 4, 3, -5, 6, -1, 8, 9, -4, 11, 10, 3, -7, 13, 12, 5, -8, 2, 17, -6};
    const std::size_t n = static_cast<std::size_t>(r * cn);
    for (std::size_t q = 0; q < (std::size_t{1} << n); ++q) {
      const int ones = __builtin_popcountll(q);
      if (static_cast<int>(n) - ones > zeros && ones > others) continue;
      std::vector<S> el;
      for (std::size_t i = 0; i < n; ++i) el.push_back((q >> i) & 1 ? I(vals[i]) : I(0));
      matrix(r, cn, el);
    }
  }
};

void body(ex::Explorer& e) {
  Run r(e);
  const S a = r.a, b = r.b;
  const std::vector<S> big{I(0), I(1), I(-1), I(2), a, b, -a, a + b, Q(1, 2), S(0.5)};
  r.all(1, 1, big);
  for (index_t n = 2; n <= 4; ++n) r.all(1, n, n == 4 ? std::vector<S>{I(0), I(1), a, b, -a} : big);
  r.all(2, 1, big);
  r.all(3, 1, {I(0), I(1), a});
  r.all(3, 2, {I(0), I(1), a});
  r.all(4, 3, {I(0), I(1)});
  r.all(2, 2, big);
  r.all(2, 3, {I(0), I(1), I(-1), a, b});
  r.all(2, 4, {I(0), I(1), a});
  r.all(3, 3, e.thorough ? std::vector<S>{I(0), I(1), I(-1), a, b} : std::vector<S>{I(0), I(1), a});
  r.all(3, 4, {I(0), I(1)});
  if (e.thorough) r.all(3, 4, {I(0), I(2), a});
  r.all(4, 4, {I(0), I(1)});
  r.patterns(3, 3);
  r.patterns(3, 4);
  if (e.thorough) {
    r.patterns(4, 4);
    r.patterns(3, 5);
    r.patterns(2, 6);
    r.all(3, 5, {I(0), I(1)});
    r.numeric_patterns(4, 5);
    r.all(4, 4, {I(0), I(1), I(-1)}, 1, 6);
  } else {
    r.patterns(4, 4);
  }
  r.numeric_patterns(4, 4);
  r.numeric_patterns(5, 5, e.thorough ? 6 : 3, e.thorough ? 8 : 4);
  // every permutation matrix of order 5 and 6, plain and with a repeated or an added row
  for (index_t n : {4, 5, 6}) {
    std::vector<int> p(static_cast<std::size_t>(n));
    std::iota(p.begin(), p.end(), 0);
    do {
      std::vector<S> el(static_cast<std::size_t>(n * n), I(0));
      for (std::size_t i = 0; i < p.size(); ++i) el[i * p.size() + static_cast<std::size_t>(p[i])] = I(static_cast<int>(i) + 2);
      r.matrix(n, n, el);
      if (n < 6 || e.thorough) {
        for (std::size_t k = 1; k < p.size(); ++k) {
          auto q = el;
          for (std::size_t j = 0; j < p.size(); ++j) q[k * p.size() + j] = el[j];  // rank deficient
          r.matrix(n, n, q);
          q = el;
          for (std::size_t j = 0; j < p.size(); ++j) q[k * p.size() + j] = el[k * p.size() + j] + el[j] * 3;
          r.matrix(n, n, q);
          q[k] = r.sym[k];
          r.matrix(n, n, q);
        }
      }
    } while (std::next_permutation(p.begin(), p.end()));
  }
  // larger matrices: structured families with every relabelling of one row and one column exchange
  {
    const index_t top = e.thorough ? 8 : 7;
    for (index_t n = 5; n <= top; ++n)
      for (index_t extra : {0, 1, 3})
        for (int kind = 0; kind < 9; ++kind) {
          const index_t w = n + extra;
          if (kind == 1 && n > 6) continue;  // beyond 64-bit fractions
          auto f = [&](index_t i, index_t j) -> S {
            switch (kind) {
              case 0: return I(static_cast<int>(std::pow(i + 2, j % 4)) - static_cast<int>(j));          // Vandermonde
              case 1: return Q(1, static_cast<int>(i + j) + 1);                                             // Hilbert
              case 2: return i == j ? I(4) : std::abs(i - j) == 1 ? I(-1) : I(0);                           // tridiagonal
              case 3: return i == 0 || j == 0 || i == j ? I(static_cast<int>(i * 3 + j) % 7 + 1) : I(0);    // arrow
              case 4: return (i + j) % 2 ? I(0) : I(static_cast<int>(i * 5 + j * 3) % 11 - 5);              // checkerboard
              case 5: return i + j == n - 1 ? r.sym[static_cast<std::size_t>(i)] : i + j > n - 1 ? I(1) : I(0);  // anti-triangular
              case 6: return i > j ? I(0) : r.sym[static_cast<std::size_t>(i * 6 + j) % 40];               // upper triangular
              case 7: return I(static_cast<int>(i * j * j + 3 * i + j * 7) % 5 - 2);
              default: return i == j ? r.sym[static_cast<std::size_t>(i)] : (i + 2 * j) % 5 == 0 ? I(2) : I(0);
            }
          };
          for (index_t p = 0; p < n; ++p)
            for (index_t q = 0; q < w; q += p == 0 ? 1 : 2) {
              std::vector<S> el;
              for (index_t i = 0; i < n; ++i)
                for (index_t j = 0; j < w; ++j) el.push_back(f(i == 0 ? p : i == p ? 0 : i, j == 0 ? q : j == q ? 0 : j));
              r.matrix(n, w, el);
              if (n > 5 && kind % 2 == 0 && !e.thorough) break;
            }
        }
  }
  // row k is a multiple of another one, with symbols
  for (index_t n : {2, 3, 4})
    for (index_t i = 0; i < n; ++i)
      for (index_t j = 0; j < n; ++j)
        for (const S& f : {I(1), I(-1), I(0), a, Q(1, 2)}) {
          std::vector<S> el;
          for (index_t k = 0; k < n * n; ++k) el.push_back(r.sym[static_cast<std::size_t>(k)]);
          if (i == j) el[static_cast<std::size_t>(i * n)] = f;
          else
            for (index_t k = 0; k < n; ++k) el[static_cast<std::size_t>(i * n + k)] = el[static_cast<std::size_t>(j * n + k)] * f;
          r.matrix(n, n, el);
        }
}
}  // namespace
int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
