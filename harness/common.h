#pragma once
#include "explore.h"
#include "refeval.h"
#include "wf/functions.h"
#include "wf/utility/error_types.h"

namespace h {
using ref::C;
using ref::Cmp;
using ref::Context;
using ref::V;
using ref::Vec;
using ref::VecP;
using wf::scalar_expr;
using S = wf::scalar_expr;

inline S I(long long n) { return S{n}; }
inline S Q(long long n, long long d) { return S{wf::rational_constant{wf::checked_int{n}, wf::checked_int{d}}}; }

// The variables used by the harnesses, one per declared set.
struct Vars {
  S x{"x", wf::number_set::unknown};
  S y{"y", wf::number_set::unknown};
  S z{"z", wf::number_set::complex};
  S r{"r", wf::number_set::real};
  S s{"s", wf::number_set::real};
  S p{"p", wf::number_set::real_positive};
  S n{"n", wf::number_set::real_non_negative};
};

// Points: every variable runs over its own list (which includes 0, +-1, integers, fractions and,
// for complex variables, all four quadrants and both axes) with co-prime strides.
inline Context points(const Vars& v, int npts = 60, bool real_only = false) {
  static const std::vector<C> xs{{0, 0}, {1, 0}, {-1, 0}, {2, 0}, {-0.75, 0}, {0.5, 0.25}, {-1.5, 0.5}, {-0.5, -1.25}, {1.25, -0.75}, {0, 1}, {0, -2}, {-2.5, 0}};
  static const std::vector<C> xr{{0.5, 0}, {1, 0}, {-1, 0}, {2, 0}, {-0.75, 0}, {1.25, 0}, {0, 0}, {-3, 0}, {-0.25, 0}, {3.5, 0}, {-2.5, 0}, {0.125, 0}};
  static const std::vector<C> rs{{-2, 0}, {-0.5, 0}, {0, 0}, {0.75, 0}, {3, 0}, {-1, 0}, {1.5, 0}};
  static const std::vector<C> ps{{0.25, 0}, {1, 0}, {2.5, 0}, {0.75, 0}, {4, 0}};
  static const std::vector<C> ns{{0, 0}, {0.5, 0}, {2, 0}, {1, 0}, {3, 0}, {0.25, 0}};
  const auto& cs = real_only ? xr : xs;
  Context c;
  auto fill = [&](const S& var, const std::vector<C>& l, auto idx) {
    Vec w;
    for (int i = 0; i < npts; ++i) w.push_back(V::ok(l[static_cast<std::size_t>(idx(i)) % l.size()]));
    c.set(var, std::move(w));
  };
  fill(v.x, cs, [](int i) { return i; });
  fill(v.y, cs, [](int i) { return 7 * i + i / 12 + 3; });
  fill(v.z, cs, [](int i) { return 5 * i + i / 12 + 6; });
  fill(v.r, rs, [](int i) { return i; });
  fill(v.s, rs, [](int i) { return 3 * i + i / 7 + 2; });
  fill(v.p, ps, [](int i) { return i + i / 12; });
  fill(v.n, ns, [](int i) { return i + i / 7; });
  return c;
}

inline uint64_t state_hash(const S& e) { return ex::Explorer::mix(wf::hash_struct<S>{}(e)); }

// Compares the value of `got` with the vector `want`; reports the first point of disagreement.
inline bool check_value(ex::Explorer& e, const Context& c, const Vec& want, const S& got, const std::string& key,
                        bool strict_poles = true) {
  const VecP g = c.eval_nomemo(got);
  uint64_t decided = 0;
  for (std::size_t i = 0; i < want.size(); ++i) {
    const Cmp r = ref::compare_values(want[i], (*g)[i], strict_poles);
    if (r == Cmp::skipped) continue;
    ++decided;
    if (r == Cmp::differ) {
      std::string at;
      for (auto& [leaf, vals] : c.bind) at += " " + leaf.to_string() + "=" + ref::show(vals[i]);
      e.violation(key, "built: " + got.to_string() + " ; at" + at + " ; expected " + ref::show(want[i]) + " got " + ref::show((*g)[i]));
      return false;
    }
  }
  e.count["values_compared"] += decided;
  if (decided) ++e.count["transitions_decided"];
  return true;
}

template <typename F>
inline bool guarded(ex::Explorer& e, const std::string& key, bool arithmetic_ok, F&& f) {
  try {
    f();
    return true;
  } catch (const wf::arithmetic_error& x) {
    ++e.count["arithmetic_errors"];
    if (!arithmetic_ok) e.violation(key, std::string("unexpected arithmetic error: ") + x.what());
  } catch (const std::exception& x) {
    e.violation(key, std::string("unexpected exception: ") + x.what());
  }
  return false;
}
}  // namespace h
