// C10: quaternion and SO(3) operations against rotation algebra in long double.
#include <array>

#include "pool.h"
#include "wf/derivative.h"
#include "wf/geometry/quaternion.h"
using namespace h;
using M = wf::matrix_expr;
using wf::index_t;
using wf::quaternion;
using LD = long double;
using Q4 = std::array<LD, 4>;
using V3 = std::array<LD, 3>;
using M3 = std::array<LD, 9>;

namespace {
Vars v;
const LD PI = 3.141592653589793238462643383279502884L;

Q4 qmul(const Q4& a, const Q4& b) {
  // (s, u)(t, w) = (st - u.w, s w + t u + u x w)
  return {a[0] * b[0] - (a[1] * b[1] + a[2] * b[2] + a[3] * b[3]), a[0] * b[1] + b[0] * a[1] + (a[2] * b[3] - a[3] * b[2]), a[0] * b[2] + b[0] * a[2] + (a[3] * b[1] - a[1] * b[3]), a[0] * b[3] + b[0] * a[3] + (a[1] * b[2] - a[2] * b[1])};
}
Q4 conj(const Q4& a) { return {a[0], -a[1], -a[2], -a[3]}; }
LD n2(const Q4& a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]; }
V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
LD dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// Rotation of x by an angle about a unit axis (Rodrigues).
V3 rot(const V3& k, LD t, const V3& x) {
  const V3 kx = cross(k, x);
  const LD kd = dot(k, x), c = cosl(t), s = sinl(t);
  V3 o;
  for (std::size_t i = 0; i < 3; ++i) o[i] = x[i] * c + kx[i] * s + k[i] * kd * (1 - c);
  return o;
}
M3 rotm(const V3& k, LD t) {
  M3 m{};
  for (std::size_t j = 0; j < 3; ++j) {
    V3 x{0, 0, 0};
    x[j] = 1;
    const V3 y = rot(k, t, x);
    for (std::size_t i = 0; i < 3; ++i) m[i * 3 + j] = y[i];
  }
  return m;
}
M3 mm(const M3& a, const M3& b) {
  M3 o{};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k) o[i * 3 + j] += a[i * 3 + k] * b[k * 3 + j];
  return o;
}
M3 skew(const V3& w) { return {0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0}; }
// integral of exp(skew(w) s) over s in [0, 1], from its power series (|w| is at most a few pi)
M3 left_jacobian(const V3& w) {
  M3 sum{1, 0, 0, 0, 1, 0, 0, 0, 1}, term = sum;
  const M3 k = skew(w);
  for (int n = 1; n < 80; ++n) {
    term = mm(term, k);
    for (auto& x : term) x /= (n + 1);
    for (int i = 0; i < 9; ++i) sum[i] += term[i];
  }
  return sum;
}
M3 inverse3(const M3& m) {
  const LD det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
  M3 o{m[4] * m[8] - m[5] * m[7], m[2] * m[7] - m[1] * m[8], m[1] * m[5] - m[2] * m[4], m[5] * m[6] - m[3] * m[8], m[0] * m[8] - m[2] * m[6], m[2] * m[3] - m[0] * m[5], m[3] * m[7] - m[4] * m[6], m[1] * m[6] - m[0] * m[7], m[0] * m[4] - m[1] * m[3]};
  for (auto& x : o) x /= det;
  return o;
}

// Axes: all directions of the {-1,0,1} lattice and some generic ones.
std::vector<V3> axes(bool thorough) {
  std::vector<V3> o;
  auto add = [&](LD x, LD y, LD z) {
    const LD n = sqrtl(x * x + y * y + z * z);
    o.push_back({x / n, y / n, z / n});
  };
  for (int x = -1; x <= 1; ++x)
    for (int y = -1; y <= 1; ++y)
      for (int z = -1; z <= 1; ++z)
        if (x || y || z) add(x, y, z);
  add(0.3L, -0.5L, 0.8L);
  add(-2, 0.1L, 0.7L);
  add(1, 0.001L, -0.002L);
  add(0.5L, 0.7L, -0.4L);
  if (thorough)
    for (int x = -2; x <= 2; ++x)
      for (int y = -2; y <= 2; ++y)
        for (int z = -2; z <= 2; ++z)
          if (x * x + y * y + z * z > 3) add(x, y, z);
  return o;
}
std::vector<LD> angles(bool thorough) {
  std::vector<LD> o{0, 1e-9L, 1e-5L, 1e-3L, 0.1L, 0.5L, 1, PI / 2, 2, 2 * PI / 3, 3, PI - 1e-4L, PI, PI + 1e-4L, 3.5L, 3 * PI / 2, 5, 6, -0.5L, -2, -4};
  if (thorough)
    for (int i = -25; i <= 25; ++i) o.push_back(i * 0.25L);
  return o;
}
struct Rotation {
  V3 k;
  LD t;
  Q4 q;
  M3 m;
};
std::vector<Rotation> rotations(bool thorough) {
  std::vector<Rotation> o;
  for (const V3& k : axes(thorough))
    for (LD t : angles(thorough)) {
      const LD s = sinl(t / 2);
      Q4 q{cosl(t / 2), k[0] * s, k[1] * s, k[2] * s};
      for (auto& x : q)
        if (fabsl(x) < 1e-17L) x = 0;
      M3 m = rotm(k, t);
      for (auto& x : m)
        for (int z : {-1, 0, 1})
          if (fabsl(x - z) < 1e-17L) x = z;
      o.push_back({k, t, q, m});
    }
  return o;
}
V vd(LD x, double err = 0) { return V::ok(C{static_cast<double>(x), 0}, err); }

struct Run {
  ex::Explorer& e;
  std::vector<Rotation> rs;
  Context c;  // one point per rotation
  std::array<S, 4> q{S{"w", wf::number_set::real}, S{"qx", wf::number_set::real}, S{"qy", wf::number_set::real}, S{"qz", wf::number_set::real}};
  std::array<S, 4> u{S{"uw", wf::number_set::real}, S{"ux", wf::number_set::real}, S{"uy", wf::number_set::real}, S{"uz", wf::number_set::real}};
  std::array<S, 3> k{S{"kx", wf::number_set::real}, S{"ky", wf::number_set::real}, S{"kz", wf::number_set::real}};
  std::array<S, 3> w3{S{"vx", wf::number_set::real}, S{"vy", wf::number_set::real}, S{"vz", wf::number_set::real}};
  S t{"t", wf::number_set::real}, eps{"eps", wf::number_set::real_positive};
  std::vector<S> r;
  // values at every point
  std::vector<Q4> qu;                  // a second, not normalised quaternion
  Run(ex::Explorer& e_, bool many) : e(e_), rs(rotations(many)) {
    c.n = rs.size();
    auto bind = [&](const S& s, auto f) {
      Vec w;
      for (std::size_t i = 0; i < rs.size(); ++i) {
        const LD x = f(i);
        w.push_back(V::ok(C{static_cast<double>(x), 0}, static_cast<double>(x) == x ? 0 : 1e-17 + 1e-16 * std::fabs(static_cast<double>(x))));
      }
      c.set(s, std::move(w));
    };
    for (std::size_t i = 0; i < rs.size(); ++i) {
      const LD z = static_cast<LD>(i % 17) / 4 - 2;
      qu.push_back({z, 1.5L - static_cast<LD>(i % 5), 0.25L * static_cast<LD>(i % 7), static_cast<LD>(i % 3) - 1 + z / 8});
      if (n2(qu.back()) < 0.01L) qu.back()[0] = 1;
    }
    for (std::size_t j = 0; j < 4; ++j) {
      bind(q[j], [&](std::size_t i) { return rs[i].q[j]; });
      bind(u[j], [&](std::size_t i) { return qu[i][j]; });
    }
    for (std::size_t j = 0; j < 3; ++j) {
      bind(k[j], [&](std::size_t i) { return rs[i].k[j]; });
      bind(w3[j], [&](std::size_t i) { return rs[i].k[j] * rs[i].t; });
    }
    bind(t, [&](std::size_t i) { return rs[i].t; });
    bind(eps, [&](std::size_t) { return 1e-4L; });
    for (std::size_t j = 0; j < 9; ++j) {
      r.push_back(S{"r" + std::to_string(j), wf::number_set::real});
      bind(r.back(), [&](std::size_t i) { return rs[i].m[j]; });
    }
  }
  template <typename F>
  Vec fill(F&& f) const {
    Vec w;
    for (std::size_t i = 0; i < rs.size(); ++i) w.push_back(f(i));
    return w;
  }
  void expect(const std::string& key, const S& got, const Vec& want) {
    if (!e.next()) return;
    e.sample([&] { return key; });
    e.state(state_hash(got));
    check_value(e, c, want, got, key, false);
  }
  void expect_q(const std::string& key, const quaternion& got, const std::function<Q4(std::size_t)>& f, double err = 1e-13) {
    const char* n[] = {".w", ".x", ".y", ".z"};
    std::vector<Q4> all;
    for (std::size_t i = 0; i < rs.size(); ++i) all.push_back(f(i));
    for (std::size_t j = 0; j < 4; ++j) expect(key + n[j], got.wxyz()[j], fill([&](std::size_t i) { return std::isnan(static_cast<double>(all[i][j])) ? V::bad(ref::NOISE) : vd(all[i][j], err); }));
  }
  void expect_m(const std::string& key, const M& got, index_t rows, index_t cols, const std::function<LD(std::size_t, std::size_t)>& f, double err = 1e-13) {
    if (got.rows() != rows || got.cols() != cols) {
      e.violation(key, key + ": wrong shape");
      return;
    }
    for (std::size_t j = 0; j < got.size(); ++j)
      expect(key + "[" + std::to_string(j) + "]", got.to_vector()[j], fill([&](std::size_t i) {
               const LD x = f(i, j);
               return std::isnan(static_cast<double>(x)) ? V::bad(ref::NOISE) : vd(x, err);
             }));
  }
  static LD nan_() { return std::numeric_limits<LD>::quiet_NaN(); }
  template <typename F>
  void guard(const std::string& key, F&& f) {
    try {
      f();
    } catch (const std::exception& x) {
      e.violation(key, key + " raised " + x.what());
    }
  }
  template <typename F>
  void must_fail(const std::string& key, F&& f) {
    if (!e.next()) return;
    ++e.count["transitions_decided"];
    try {
      f();
      e.violation(key, key + " did not raise an error");
    } catch (const wf::dimension_error&) {
    } catch (const std::exception& x) {
      e.violation(key, key + " raised another error: " + x.what());
    }
  }
};

// component patterns: what each component may be
struct Comp {
  S e;
  std::function<LD(std::size_t)> f;
};

void algebra(Run& r) {
  // quaternions whose components are symbols, zeros, ones, sums, ... in all combinations
  auto comps = [&](const std::array<S, 4>& s, const std::function<const Q4&(std::size_t)>& val, std::size_t j) {
    std::vector<Comp> o{{s[j], [=](std::size_t i) { return val(i)[j]; }}, {I(0), [](std::size_t) { return LD(0); }}, {I(1), [](std::size_t) { return LD(1); }}, {-s[j], [=](std::size_t i) { return -val(i)[j]; }}, {s[(j + 1) % 4], [=](std::size_t i) { return val(i)[(j + 1) % 4]; }}};
    if (r.e.thorough) {
      o.push_back({Q(1, 2), [](std::size_t) { return LD(0.5); }});
      o.push_back({s[j] + s[0], [=](std::size_t i) { return val(i)[j] + val(i)[0]; }});
    }
    return o;
  };
  auto quats = [&](const std::array<S, 4>& s, const std::function<const Q4&(std::size_t)>& val, bool few) {
    std::vector<std::pair<quaternion, std::function<Q4(std::size_t)>>> o;
    std::vector<std::vector<Comp>> cs;
    for (std::size_t j = 0; j < 4; ++j) {
      cs.push_back(comps(s, val, j));
      if (few) cs.back().erase(cs.back().begin()+3, cs.back().end());
    }
    for (auto& a : cs[0])
      for (auto& b : cs[1])
        for (auto& d : cs[2])
          for (auto& f : cs[3])
            o.push_back({quaternion(a.e, b.e, d.e, f.e), [a, b, d, f](std::size_t i) { return Q4{a.f(i), b.f(i), d.f(i), f.f(i)}; }});
    return o;
  };
  const auto A = quats(r.q, [&](std::size_t i) -> const Q4& { return r.rs[i].q; }, false);
  const auto B = quats(r.u, [&](std::size_t i) -> const Q4& { return r.qu[i]; }, true);
  auto name = [](const quaternion& q) { return "(" + q.w().to_string() + ", " + q.x().to_string() + ", " + q.y().to_string() + ", " + q.z().to_string() + ")"; };
  for (auto& [q, f] : A) {
    const std::string n = name(q);
    r.guard(n, [&] {
      r.expect("squared_norm " + n, q.squared_norm(), r.fill([&](std::size_t i) { return vd(n2(f(i)), 1e-14); }));
      r.expect("norm " + n, q.norm(), r.fill([&](std::size_t i) { return n2(f(i)) > 0 ? vd(sqrtl(n2(f(i))), 1e-13) : V::bad(ref::NOISE); }));
      const bool zero = wf::is_zero(q.w()) && wf::is_zero(q.x()) && wf::is_zero(q.y()) && wf::is_zero(q.z());
      auto scaled = [&](const Q4& a, LD s) { return s == 0 ? Q4{r.nan_(), r.nan_(), r.nan_(), r.nan_()} : Q4{a[0] / s, a[1] / s, a[2] / s, a[3] / s}; };
      if (!zero) {
        r.expect_q("normalized " + n, q.normalized(), [&](std::size_t i) { return scaled(f(i), sqrtl(n2(f(i)))); });
        r.expect_q("inverse " + n, q.inverse(), [&](std::size_t i) { return scaled(conj(f(i)), n2(f(i))); });
      }
      r.expect_q("conjugate " + n, q.conjugate(), [&](std::size_t i) { return conj(f(i)); });
      r.expect_q("negated " + n, -q, [&](std::size_t i) { const Q4 a = f(i); return Q4{-a[0], -a[1], -a[2], -a[3]}; });
      // multiplication by its conjugate is the squared norm
      r.expect_q("q*conj(q) " + n, q * q.conjugate(), [&](std::size_t i) { return Q4{n2(f(i)), 0, 0, 0}; });
      r.expect_m("rotation matrix " + n, q.to_rotation_matrix(), 3, 3, [&](std::size_t i, std::size_t j) -> LD {
        const Q4 a = f(i);
        if (fabsl(n2(a) - 1) > 1e-15L) return r.nan_();
        Q4 b{0, 0, 0, 0};
        b[1 + j % 3] = 1;
        return qmul(qmul(a, b), conj(a))[1 + j / 3];
      });
    });
  }
  for (std::size_t i1 = 0; i1 < A.size(); i1 += r.e.thorough ? 3 : 2)
    for (auto& [b, g] : B) {
      const auto& [a, f] = A[i1];
      r.guard("product", [&, &a = a, &f = f, &b = b, &g = g] { r.expect_q("product " + name(a) + name(b), a * b, [&](std::size_t i) { return qmul(f(i), g(i)); }, 1e-13); });
    }
}

void conversions(Run& r) {
  const S t = r.t;
  const quaternion q(r.q[0], r.q[1], r.q[2], r.q[3]);
  const std::array<S, 3> x{r.u[1], r.u[2], r.u[3]};
  auto expect_same_rotation = [&](const std::string& key, const quaternion& got, double tol, bool up_to_sign = false) {
    // compares with the quaternion of the rotation
    if (!up_to_sign) {
      r.expect_q(key, got, [&](std::size_t i) { return r.rs[i].q; }, tol);
    }
  };
  // angle and axis
  expect_same_rotation("from_angle_axis", quaternion::from_angle_axis(t, r.k[0], r.k[1], r.k[2]), 1e-14);
  expect_same_rotation("from_angle_axis (vector)", quaternion::from_angle_axis(t, wf::make_vector(r.k[0], r.k[1], r.k[2])), 1e-14);
  auto about = [&](std::size_t j) {
    return [&r, j](std::size_t i) {
      Q4 o{cosl(r.rs[i].t / 2), 0, 0, 0};
      o[1 + j] = sinl(r.rs[i].t / 2);
      return o;
    };
  };
  r.expect_q("from_x_angle", quaternion::from_x_angle(t), about(0));
  r.expect_q("from_y_angle", quaternion::from_y_angle(t), about(1));
  r.expect_q("from_z_angle", quaternion::from_z_angle(t), about(2));
  // products of rotations about two axes
  const quaternion (*dummy)(const S&) = nullptr;
  (void)dummy;
  using F = quaternion (*)(const S&);
  const F fs[] = {&quaternion::from_x_angle, &quaternion::from_y_angle, &quaternion::from_z_angle};
  const S t2{"t2", wf::number_set::real};
  {
    Vec w;
    for (std::size_t i = 0; i < r.rs.size(); ++i) w.push_back(vd(static_cast<LD>(static_cast<int>(i % 9)) - 4));
    r.c.set(t2, w);
  }
  auto about2 = [&](std::size_t j, std::size_t i) {
    const LD a = static_cast<LD>(static_cast<int>(i % 9)) - 4;
    Q4 o{cosl(a / 2), 0, 0, 0};
    o[1 + j] = sinl(a / 2);
    return o;
  };
  for (std::size_t a = 0; a < 3; ++a)
    for (std::size_t b = 0; b < 3; ++b)
      for (std::size_t d = 0; d < 3; ++d) {
        const std::string key = "euler " + std::to_string(a) + std::to_string(b) + std::to_string(d);
        r.guard(key, [&] {
          const quaternion p = fs[a](t) * fs[b](t2) * fs[d](t);
          r.expect_q(key, p, [&](std::size_t i) { return qmul(qmul(about(a)(i), about2(b, i)), about(d)(i)); });
          r.expect_m(key + " matrix", p.to_rotation_matrix(), 3, 3, [&](std::size_t i, std::size_t j) {
            const Q4 z = qmul(qmul(about(a)(i), about2(b, i)), about(d)(i));
            Q4 y{0, 0, 0, 0};
            y[1 + j % 3] = 1;
            return qmul(qmul(z, y), conj(z))[1 + j / 3];
          });
        });
      }
  // matrix of a unit quaternion, rotation of a vector
  r.expect_m("to_rotation_matrix", q.to_rotation_matrix(), 3, 3, [&](std::size_t i, std::size_t j) { return r.rs[i].m[j]; });
  r.expect_m("rotate", q.rotate(wf::make_vector(x[0], x[1], x[2])), 3, 1, [&](std::size_t i, std::size_t j) { return rot(r.rs[i].k, r.rs[i].t, {r.qu[i][1], r.qu[i][2], r.qu[i][3]})[j]; });
  for (std::size_t z = 0; z < 27; ++z) {  // vectors with zeros and ones
    const std::size_t d[3] = {z % 3, z / 3 % 3, z / 9};
    std::array<S, 3> y{x[0], x[1], x[2]};
    for (std::size_t j = 0; j < 3; ++j)
      if (d[j]) y[j] = I(d[j] == 1 ? 0 : 1);
    r.expect_m("rotate " + std::to_string(z), q.rotate(wf::make_vector(y[0], y[1], y[2])), 3, 1, [&](std::size_t i, std::size_t j) {
      V3 a;
      for (std::size_t n = 0; n < 3; ++n) a[n] = d[n] == 0 ? r.qu[i][1 + n] : d[n] - 1;
      return rot(r.rs[i].k, r.rs[i].t, a)[j];
    });
  }
  // rotation vectors
  const std::vector<std::pair<std::string, std::optional<S>>> es{{"none", std::nullopt}, {"0", I(0)}, {"1e-6", S(1e-6)}, {"symbol", r.eps}, {"1/100", Q(1, 100)}};
  const LD ev[] = {-1, 0, 1e-6L, 1e-4L, 0.01L};
  for (std::size_t n = 0; n < es.size(); ++n) {
    const LD eps = ev[n];
    const auto& ep = es[n].second;
    const std::string tag = " eps=" + es[n].first;
    auto small = [&](LD x) { return x <= eps; };
    auto near = [&](LD x) { return eps > 0 && fabsl(x - eps) < 1e-3L * eps; };
    r.guard("from_rotation_vector" + tag, [&] {
      auto want = [&](std::size_t i) {
        const LD a = fabsl(r.rs[i].t);
        if (near(a) || (a == 0 && eps < 0)) return Q4{r.nan_(), r.nan_(), r.nan_(), r.nan_()};
        if (small(a)) {  // first order series, projected
          Q4 o{1, r.rs[i].k[0] * r.rs[i].t / 2, r.rs[i].k[1] * r.rs[i].t / 2, r.rs[i].k[2] * r.rs[i].t / 2};
          const LD s = sqrtl(n2(o));
          for (auto& y : o) y /= s;
          return o;
        }
        return r.rs[i].q;
      };
      r.expect_q("from_rotation_vector" + tag, quaternion::from_rotation_vector(r.w3[0], r.w3[1], r.w3[2], ep), want);
      r.expect_q("from_rotation_vector (vector)" + tag, quaternion::from_rotation_vector(wf::make_vector(r.w3[0], r.w3[1], r.w3[2]), ep), want);
      // axis aligned: two components are zero
      for (std::size_t j = 0; j < 3; ++j) {
        std::array<S, 3> a{I(0), I(0), I(0)};
        a[j] = r.t;
        r.expect_q("from_rotation_vector axis " + std::to_string(j) + tag, quaternion::from_rotation_vector(a[0], a[1], a[2], ep), [&](std::size_t i) {
          const LD z = fabsl(r.rs[i].t);
          if (near(z) || small(z) || z == 0) return Q4{r.nan_(), r.nan_(), r.nan_(), r.nan_()};
          return about(j)(i);
        });
      }
    });
    auto vec_norm = [&](std::size_t i) { return sqrtl(r.rs[i].q[1] * r.rs[i].q[1] + r.rs[i].q[2] * r.rs[i].q[2] + r.rs[i].q[3] * r.rs[i].q[3]); };
    // canonical angle in [0, pi] and axis
    auto angle = [&](std::size_t i) { return 2 * atan2l(vec_norm(i), fabsl(r.rs[i].q[0])); };
    auto axis = [&](std::size_t i, std::size_t j) { return r.rs[i].q[1 + j] / vec_norm(i) * (r.rs[i].q[0] < 0 ? -1 : 1); };
    auto edge = [&](std::size_t i) {  // w is rounded noise around zero: either sign of the axis is right
      return fabsl(r.rs[i].q[0]) < 1e-15L && r.rs[i].q[0] != 0;
    };
    r.guard("to_angle_axis" + tag, [&] {
      const auto [an, ax] = q.to_angle_axis(ep);
      r.expect("to_angle_axis angle" + tag, an, r.fill([&](std::size_t i) {
        const LD s = vec_norm(i);
        if (near(s) || (s == 0 && eps < 0)) return V::bad(ref::NOISE);
        return small(s) ? vd(0) : vd(angle(i), 1e-13);
      }));
      r.expect_m("to_angle_axis axis" + tag, ax, 3, 1, [&](std::size_t i, std::size_t j) {
        const LD s = vec_norm(i);
        if (near(s) || (s == 0 && eps < 0) || edge(i)) return r.nan_();
        return small(s) ? LD(j == 0) : axis(i, j);
      }, 1e-12);
    });
    for (bool use : {true, false}) {
      const std::string key = std::string("to_rotation_vector ") + (use ? "atan2" : "acos") + tag;
      r.guard(key, [&] {
        const M got = q.to_rotation_vector(ep, use);
        r.expect_m(key, got, 3, 1, [&](std::size_t i, std::size_t j) {
          const LD s = vec_norm(i);
          if (near(s) || (s == 0 && eps < 0) || edge(i)) return r.nan_();
          if (!use && s < 1e-3L && !(small(s) && s < eps / 2)) return r.nan_();  // acos near one has few digits
          if (small(s)) return 2 * (r.rs[i].q[0] < 0 ? -1 : 1) * r.rs[i].q[1 + j];
          return angle(i) * axis(i, j);
        }, use ? 1e-12 : 1e-10);
      });
    }
    // Jacobians of SO(3)
    r.guard("left_jacobian" + tag, [&] {
      const M w = wf::make_vector(r.w3[0], r.w3[1], r.w3[2]);
      std::vector<M3> L, LI;
      for (std::size_t i = 0; i < r.rs.size(); ++i) {
        const V3 z{r.rs[i].k[0] * r.rs[i].t, r.rs[i].k[1] * r.rs[i].t, r.rs[i].k[2] * r.rs[i].t};
        if (small(fabsl(r.rs[i].t))) {
          const M3 s = skew(z), s2 = mm(s, s);
          M3 a{1, 0, 0, 0, 1, 0, 0, 0, 1}, b = a;
          for (int j = 0; j < 9; ++j) {
            a[j] += s[j] / 2 + s2[j] / 6;
            b[j] += -s[j] / 2 + s2[j] / 12;
          }
          L.push_back(a);
          LI.push_back(b);
        } else {
          L.push_back(left_jacobian(z));
          LI.push_back(inverse3(L.back()));
        }
      }
      auto pick = [&](const std::vector<M3>& m) {
        return [&r, &m, near, eps](std::size_t i, std::size_t j) {
          const LD a = fabsl(r.rs[i].t);
          if (near(a) || (a == 0 && eps < 0)) return r.nan_();
          return m[i][j];
        };
      };
      r.expect_m("left_jacobian" + tag, wf::left_jacobian_of_so3(w, ep), 3, 3, pick(L), 1e-12);
      r.expect_m("inverse_left_jacobian" + tag, wf::inverse_left_jacobian_of_so3(w, ep), 3, 3, pick(LI), 1e-12);
      for (std::size_t z = 1; z < 7; ++z) {  // zero components
        std::array<S, 3> a{r.w3[0], r.w3[1], r.w3[2]};
        for (std::size_t j = 0; j < 3; ++j)
          if (z >> j & 1) a[j] = I(0);
        const M wz = wf::make_vector(a[0], a[1], a[2]);
        auto pz = [&](bool inv) {
          return [&r, z, eps, inv](std::size_t i, std::size_t j) {
            V3 y;
            for (std::size_t n2_ = 0; n2_ < 3; ++n2_) y[n2_] = z >> n2_ & 1 ? 0 : r.rs[i].k[n2_] * r.rs[i].t;
            const LD a = sqrtl(dot(y, y));
            if (a <= eps * 1.01L || a == 0) return r.nan_();
            const M3 m = left_jacobian(y);
            return inv ? inverse3(m)[j] : m[j];
          };
        };
        r.expect_m("left_jacobian zero " + std::to_string(z) + tag, wf::left_jacobian_of_so3(wz, ep), 3, 3, pz(false), 1e-12);
        r.expect_m("inverse_left_jacobian zero " + std::to_string(z) + tag, wf::inverse_left_jacobian_of_so3(wz, ep), 3, 3, pz(true), 1e-12);
      }
    });
  }
  // matrix to quaternion and back
  r.guard("from_rotation_matrix", [&] {
    const M R = M::create(3, 3, r.r);
    const quaternion p = quaternion::from_rotation_matrix(R);
    r.expect_m("from_rotation_matrix", p.to_rotation_matrix(), 3, 3, [&](std::size_t i, std::size_t j) { return r.rs[i].m[j]; }, 1e-12);
    r.expect("from_rotation_matrix norm", p.squared_norm(), r.fill([&](std::size_t) { return vd(1, 1e-12); }));
    // and through the matrix of a quaternion
    const quaternion p2 = quaternion::from_rotation_matrix(q.to_rotation_matrix());
    r.expect_m("from_rotation_matrix(to_rotation_matrix)", p2.to_rotation_matrix(), 3, 3, [&](std::size_t i, std::size_t j) { return r.rs[i].m[j]; }, 1e-11);
  });
  // tangent derivatives
  r.guard("tangent", [&] {
    r.expect_m("right_retract_derivative", q.right_retract_derivative(), 4, 3, [&](std::size_t i, std::size_t j) {
      Q4 d{0, 0, 0, 0};
      d[1 + j % 3] = 0.5L;
      return qmul(r.rs[i].q, d)[j / 3];
    });
    r.expect_m("right_local_coordinates_derivative", q.right_local_coordinates_derivative(), 3, 4, [&](std::size_t i, std::size_t j) {
      Q4 d{0, 0, 0, 0};
      d[j % 4] = 2;
      return qmul(conj(r.rs[i].q), d)[1 + j / 4];
    });
    // with other components than symbols: the cached expressions must not interfere
    for (std::size_t a = 0; a < 4; ++a)
      for (std::size_t b = 0; b < 4; ++b) {
        std::array<S, 4> z{r.q[0], r.q[1], r.q[2], r.q[3]};
        std::swap(z[a], z[b]);
        const quaternion p(z[0], z[1], z[2], -z[3]);
        auto val = [&r, a, b](std::size_t i) {
          Q4 y = r.rs[i].q;
          std::swap(y[a], y[b]);
          y[3] = -y[3];
          return y;
        };
        const std::string key = "swapped " + std::to_string(a) + std::to_string(b);
        r.expect_m(key + " right_retract_derivative", p.right_retract_derivative(), 4, 3, [&](std::size_t i, std::size_t j) {
          Q4 d{0, 0, 0, 0};
          d[1 + j % 3] = 0.5L;
          return qmul(val(i), d)[j / 3];
        });
        r.expect_m(key + " right_local_coordinates_derivative", p.right_local_coordinates_derivative(), 3, 4, [&](std::size_t i, std::size_t j) {
          Q4 d{0, 0, 0, 0};
          d[j % 4] = 2;
          return qmul(conj(val(i)), d)[1 + j / 4];
        });
      }
  });
}

// Exact rotations: rational quaternions and rotation matrices as numbers.
void exact(Run& r) {
  const int N = r.e.thorough ? 4 : 2;
  Context c1;
  c1.n = 1;
  for (int a = -N; a <= N; ++a)
    for (int b = -N; b <= N; ++b)
      for (int d = -N; d <= N; ++d)
        for (int f = -N; f <= N; ++f) {
          const long long n = a * a + b * b + d * d + f * f;
          if (n == 0 || !r.e.next()) continue;
          const std::string key = "exact (" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + "," + std::to_string(f) + ")";
          r.e.sample([&] { return key; });
          try {
            const Q4 q{LD(a), LD(b), LD(d), LD(f)};
            std::array<long long, 9> num{};
            std::vector<S> el;
            const long long aa = a * a, bb = b * b, dd = d * d, ff = f * f;
            const long long mat[9] = {aa + bb - dd - ff, 2 * (b * d - a * f), 2 * (b * f + a * d), 2 * (b * d + a * f), aa - bb + dd - ff, 2 * (d * f - a * b), 2 * (b * f - a * d), 2 * (d * f + a * b), aa - bb - dd + ff};
            for (int i = 0; i < 9; ++i) el.push_back(I(mat[i]) / I(n));
            const M R = M::create(3, 3, el);
            const quaternion p = quaternion::from_rotation_matrix(R);
            r.e.state(state_hash(p.w()));
            // equal to +-q / |q|
            std::array<V, 4> g;
            bool ok = true;
            for (std::size_t i = 0; i < 4; ++i) {
              g[i] = (*c1.eval(p.wxyz()[i]))[0];
              ok = ok && g[i].is_ok();
            }
            const LD s = sqrtl(static_cast<LD>(n));
            auto matches = [&](int sign) {
              for (std::size_t i = 0; i < 4; ++i)
                if (std::abs(g[i].v - C{static_cast<double>(sign * q[i] / s), 0}) > 1e-9) return false;
              return true;
            };
            ++r.e.count["transitions_decided"];
            if (!ok || !(matches(1) || matches(-1))) r.e.violation(key, key + ": from_rotation_matrix gives " + p.w().to_string() + ", " + p.x().to_string() + ", " + p.y().to_string() + ", " + p.z().to_string());
            const quaternion e1 = quaternion(I(a), I(b), I(d), I(f));
            const quaternion u = e1.normalized();
            const M back = u.to_rotation_matrix();
            for (int i = 0; i < 9; ++i) {
              const V x = (*c1.eval(back.to_vector()[static_cast<std::size_t>(i)]))[0];
              if (!x.is_ok() || std::abs(x.v - C{static_cast<double>(mat[i]) / static_cast<double>(n), 0}) > 1e-12) r.e.violation(key, key + ": to_rotation_matrix element " + std::to_string(i) + " is " + back.to_vector()[static_cast<std::size_t>(i)].to_string());
            }
            const quaternion one = e1 * e1.inverse();
            if (!wf::is_one(one.w()) || !wf::is_zero(one.x()) || !wf::is_zero(one.y()) || !wf::is_zero(one.z())) r.e.violation(key, key + ": q * q^-1 is " + one.w().to_string());
            // angle and rotation vector of the numbers
            for (int eps : {0, 1}) {
              const std::optional<S> ep = eps ? std::optional<S>(S(1e-9)) : std::nullopt;
              const LD vn = sqrtl(static_cast<LD>(bb + dd + ff)) / s;
              if (vn == 0 && !eps) continue;
              const LD an = vn == 0 ? 0 : 2 * atan2l(vn, fabsl(a / s));
              const auto [angle, axis] = u.to_angle_axis(ep);
              const M rv = u.to_rotation_vector(ep);
              const V x = (*c1.eval(angle))[0];
              if (!x.is_ok() || std::abs(x.v - C{static_cast<double>(an), 0}) > 1e-9) r.e.violation(key, key + ": angle " + angle.to_string());
              for (std::size_t j = 0; j < 3; ++j) {
                const LD ax = vn == 0 ? LD(j == 0) : q[1 + j] / s / vn * (a < 0 ? -1 : 1);
                const V y = (*c1.eval(axis[static_cast<index_t>(j)]))[0], z = (*c1.eval(rv[static_cast<index_t>(j)]))[0];
                if (!y.is_ok() || std::abs(y.v - C{static_cast<double>(ax), 0}) > 1e-9) r.e.violation(key, key + ": axis " + axis.to_string());
                if (!z.is_ok() || std::abs(z.v - C{static_cast<double>(ax * an), 0}) > 1e-9) r.e.violation(key, key + ": rotation vector " + rv.to_string());
              }
            }
          } catch (const std::exception& x) {
            r.e.violation(key, key + " raised " + x.what());
          }
        }
}

void plain(Run& r) {
  const quaternion q(r.q[0], r.q[1], r.q[2], r.q[3]);
  auto same = [&](const std::string& key, bool ok) {
    if (!r.e.next()) return;
    ++r.e.count["transitions_decided"];
    if (!ok) r.e.violation(key, key + " is wrong");
  };
  const M wxyz = wf::make_vector(r.q[0], r.q[1], r.q[2], r.q[3]), xyzw = wf::make_vector(r.q[1], r.q[2], r.q[3], r.q[0]);
  same("to_vector_wxyz", q.to_vector_wxyz().is_identical_to(wxyz));
  same("to_vector_xyzw", q.to_vector_xyzw().is_identical_to(xyzw));
  same("from_vector_wxyz", quaternion::from_vector_wxyz(wxyz).is_identical_to(q));
  same("from_vector_xyzw", quaternion::from_vector_xyzw(xyzw).is_identical_to(q));
  const quaternion n = quaternion::from_name_prefix("p");
  const auto [a, b, c, d] = wf::make_symbols("p_w", "p_x", "p_y", "p_z");
  same("from_name_prefix", n.is_identical_to(quaternion(a, b, c, d)));
  same("default", quaternion().is_identical_to(quaternion(I(1), I(0), I(0), I(0))));
  for (std::size_t j = 0; j < 4; ++j) {
    std::array<S, 4> z{r.q[0], r.q[1], r.q[2], r.q[3]};
    const S t = z[j];
    z[j] = v.x + 1;
    same("subs", q.subs(t, v.x + 1).is_identical_to(quaternion(z[0], z[1], z[2], z[3])));
  }
  // jacobians are made of the derivatives of the elements
  const std::array<S, 4> el{r.q[0] * r.t, wf::sin(r.t) + r.q[1], r.q[2] * r.q[3], wf::pow(r.t, I(2)) / r.q[0]};
  const quaternion p(el[0], el[1], el[2], el[3]);
  const std::vector<S> vars{r.q[0], r.t, r.q[3], r.q[1]};
  for (std::size_t k = 1; k <= 4; ++k) {
    const std::vector<S> vs(vars.begin(), vars.begin() + static_cast<std::ptrdiff_t>(k));
    const M J = p.jacobian(absl::Span<const S>(vs)), J2 = p.jacobian(M::create(static_cast<index_t>(k), 1, vs)), J3 = p.jacobian(M::create(1, static_cast<index_t>(k), vs));
    bool ok = J.rows() == 4 && J.cols() == static_cast<index_t>(k) && J.is_identical_to(J2) && J.is_identical_to(J3);
    for (std::size_t i = 0; ok && i < 4; ++i)
      for (std::size_t j = 0; j < k; ++j) ok = ok && J(static_cast<index_t>(i), static_cast<index_t>(j)).is_identical_to(wf::diff(el[i], vs[j], 1, wf::non_differentiable_behavior::constant));
    same("jacobian " + std::to_string(k), ok);
  }
  const quaternion q2(vars[0], vars[1], vars[2], vars[3]);
  same("jacobian by quaternion", p.jacobian(q2).is_identical_to(p.jacobian(absl::Span<const S>(vars))));
  for (auto [rr, cc] : std::vector<std::pair<index_t, index_t>>{{1, 3}, {2, 1}, {4, 1}, {3, 3}, {1, 4}, {3, 2}, {2, 2}}) {
    const M m = wf::make_zeros(rr, cc);
    const std::string s = " " + std::to_string(rr) + "x" + std::to_string(cc);
    r.must_fail("rotate" + s, [&] { (void)q.rotate(m); });
    r.must_fail("from_rotation_vector" + s, [&] { (void)quaternion::from_rotation_vector(m, I(0)); });
    r.must_fail("from_angle_axis" + s, [&] { (void)quaternion::from_angle_axis(r.t, m); });
    if (rr != 3 || cc != 3) r.must_fail("from_rotation_matrix" + s, [&] { (void)quaternion::from_rotation_matrix(m); });
    r.must_fail("left_jacobian" + s, [&] { (void)wf::left_jacobian_of_so3(m, I(0)); });
    r.must_fail("inverse_left_jacobian" + s, [&] { (void)wf::inverse_left_jacobian_of_so3(m, I(0)); });
    if (rr != 4 || cc != 1) {
      r.must_fail("from_vector_wxyz" + s, [&] { (void)quaternion::from_vector_wxyz(m); });
      r.must_fail("from_vector_xyzw" + s, [&] { (void)quaternion::from_vector_xyzw(m); });
    }
    if (rr != 1 && cc != 1) r.must_fail("jacobian" + s, [&] { (void)q.jacobian(m); });
  }
}

void body(ex::Explorer& e) {
  {
    Run r(e, e.thorough);
    plain(r);
    conversions(r);
  }
  Run r(e, false);
  exact(r);
  algebra(r);
}
}  // namespace
int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
