// C17: the span types of the runtime header address exactly the requested elements.
// Compiled in several parts (PART = 0 ... 8); every part enumerates its own cases.
#define WF_SPAN_EIGEN_SUPPORT
#include <wrenfold/span.h>

#include <array>
#include <sstream>
#include <string>
#include <vector>

#include "../explore.h"

#ifndef PART
#define PART 0
#endif

using wf::constant;
using wf::dynamic;
using wf::make_constant_value_pack;
using wf::make_span;
using wf::make_value_pack;
using I = std::ptrdiff_t;
using Z = std::size_t;

namespace {
ex::Explorer* E;
double store[4096];
double* const mid = store + 2048;

std::string at(const std::string& what, I i, I j) { return what + " at (" + std::to_string(i) + ", " + std::to_string(j) + ")"; }
void fail(const std::string& key, const std::string& d) { E->violation(key, d); }
template <typename A, typename B>
bool eq(const std::string& key, const std::string& what, A a, B b) {
  if (a == b) return true;
  std::ostringstream s;
  s << what << ": " << a << ", expected " << b;
  fail(key, s.str());
  return false;
}

template <Z V, bool Dyn>
struct dim_of {
  using type = constant<V>;
  static constexpr type make() { return type{}; }
};
template <Z V>
struct dim_of<V, true> {
  using type = dynamic;
  static constexpr type make() { return type{V}; }
};

// Every query and every element of a two-dimensional span.
template <typename S>
void elements2(const std::string& what, const S& s, double* base, I r, I c, I rs, I cs) {
  static_assert(S::num_dimensions == 2, "");
  eq("data()", what, (const void*)s.data(), (const void*)base);
  eq("rows()", what, s.rows(), Z(r));
  eq("cols()", what, s.cols(), Z(c));
  eq("dimension<>()", what, s.template dimension<0>(), Z(r));
  eq("dimension<>()", what, s.template dimension<1>(), Z(c));
  eq("stride<>()", what, s.template stride<0>(), Z(rs));
  eq("stride<>()", what, s.template stride<1>(), Z(cs));
  eq("dimensions()", what, s.dimensions().template get<0>().value(), Z(r));
  eq("dimensions()", what, s.dimensions().template get<1>().value(), Z(c));
  eq("strides()", what, s.strides().template get<0>().value(), Z(rs));
  eq("strides()", what, s.strides().template get<1>().value(), Z(cs));
  eq("operator bool", what, bool(s), true);
  eq("values()", what, std::get<0>(s.dimensions().values()).value(), Z(r));
  eq("values()", what, std::get<1>(s.strides().values()).value(), Z(cs));
  for (I i = 0; i < r; ++i) {
    for (I j = 0; j < c; ++j) {
      const double* want = base + i * rs + j * cs;
      bool ok = &s(i, j) == want && &s(int(i), int(j)) == want && &s(Z(i), Z(j)) == want && &s(short(i), (unsigned char)(j)) == want && &s(int(i), Z(j)) == want;
      ok = ok && s.compute_index(i, j) == want - base;
      if (!ok) {
        fail("operator()", at(what, i, j) + ": element " + std::to_string(&s(i, j) - base) + ", expected " + std::to_string(want - base));
        return;
      }
    }
  }
}

template <typename S>
void blocks2(const std::string& what, const S& s, double* base, I r, I c, I rs, I cs, int depth) {
  for (I oi = 0; oi < r; ++oi)
    for (I oj = 0; oj < c; ++oj)
      for (I br = 1; oi + br <= r; ++br)
        for (I bc = 1; oj + bc <= c; ++bc) {
          const std::string w = what + ".block((" + std::to_string(oi) + "," + std::to_string(oj) + "),(" + std::to_string(br) + "," + std::to_string(bc) + "))";
          auto b = s.block(make_value_pack(oi, oj), make_value_pack(br, bc));
          static_assert(std::is_same<typename decltype(b)::element_type, typename S::element_type>::value, "");
          elements2(w, b, base + oi * rs + oj * cs, br, bc, rs, cs);
          elements2(w, s.block(make_value_pack(dynamic(oi), int(oj)), make_value_pack((unsigned char)(br), dynamic(bc))), base + oi * rs + oj * cs, br, bc, rs, cs);
          if (depth > 0 && br * bc < r * c) {
            for (I pi = 0; pi < br; ++pi)
              for (I pj = 0; pj < bc; ++pj)
                elements2(w + ".block", b.block(make_value_pack(pi, pj), make_value_pack(br - pi, bc - pj)), base + (oi + pi) * rs + (oj + pj) * cs, br - pi, bc - pj, rs, cs);
          }
        }
}

// Blocks with offsets and sizes known at compile time, and mixed ones.
template <Z OI, Z OJ, Z BR, Z BC, typename S>
void static_block(const std::string& what, const S& s, double* base, I r, I c, I rs, I cs) {
  if (I(OI + BR) > r || I(OJ + BC) > c) return;
  const std::string w = what + ".block<" + std::to_string(OI) + "," + std::to_string(OJ) + "," + std::to_string(BR) + "," + std::to_string(BC) + ">";
  double* p = base + I(OI) * rs + I(OJ) * cs;
  elements2(w, s.block(make_constant_value_pack<OI, OJ>(), make_constant_value_pack<BR, BC>()), p, BR, BC, rs, cs);
  elements2(w, s.block(make_value_pack(Z(OI), constant<OJ>{}), make_value_pack(constant<BR>{}, Z(BC))), p, BR, BC, rs, cs);
}

template <typename S>
void all2(const std::string& what, const S& s, double* base, I r, I c, I rs, I cs) {
  if (!E->next()) return;
  elements2(what, s, base, r, c, rs, cs);
  const auto k = s.as_const();
  static_assert(std::is_same<typename decltype(k)::element_type, const double>::value, "");
  elements2(what + ".as_const()", k, base, r, c, rs, cs);
  const wf::span<const double, std::decay_t<decltype(s.dimensions())>, std::decay_t<decltype(s.strides())>> conv = s;
  elements2(what + " converted to const", conv, base, r, c, rs, cs);
  blocks2(what, s, base, r, c, rs, cs, 0);
  E->count["transitions_decided"]++;
  E->state(ex::Explorer::mix(uint64_t(r) * 7919 + uint64_t(c) * 104729 + uint64_t(rs + 64) * 1299709 + uint64_t(cs + 64) * 15485863));
  E->sample([&] { return what; });
}

template <Z R, Z C, Z RS, Z CS, bool D0, bool D1, bool S0, bool S1>
void one() {
  std::ostringstream w;
  w << "span " << R << (D0 ? "d" : "") << "x" << C << (D1 ? "d" : "") << " strides " << RS << (S0 ? "d" : "") << "," << CS << (S1 ? "d" : "");
  const auto s = make_span(mid, make_value_pack(dim_of<R, D0>::make(), dim_of<C, D1>::make()), make_value_pack(dim_of<RS, S0>::make(), dim_of<CS, S1>::make()));
  static_assert(std::decay_t<decltype(s.dimensions())>::known_at_compile_time == (!D0 && !D1), "");
  static_assert(std::decay_t<decltype(s.strides())>::known_at_compile_time == (!S0 && !S1), "");
  all2(w.str(), s, mid, R, C, RS, CS);
  if (E->next()) {
    static_block<0, 0, 1, 1>(w.str(), s, mid, R, C, RS, CS);
    static_block<1, 0, 1, 2>(w.str(), s, mid, R, C, RS, CS);
    static_block<0, 1, 2, 1>(w.str(), s, mid, R, C, RS, CS);
    static_block<1, 2, 2, 1>(w.str(), s, mid, R, C, RS, CS);
    E->count["transitions_decided"]++;
  }
}
template <Z R, Z C, Z RS, Z CS, bool D0, bool D1>
void strides_kinds() {
  one<R, C, RS, CS, D0, D1, false, false>();
  one<R, C, RS, CS, D0, D1, false, true>();
  one<R, C, RS, CS, D0, D1, true, false>();
  one<R, C, RS, CS, D0, D1, true, true>();
}
template <Z R, Z C, Z RS, Z CS>
void dims_kinds() {
  strides_kinds<R, C, RS, CS, false, false>();
  strides_kinds<R, C, RS, CS, false, true>();
  strides_kinds<R, C, RS, CS, true, false>();
  strides_kinds<R, C, RS, CS, true, true>();
}
template <Z R, Z C>
void shape() {
  dims_kinds<R, C, C, 1>();
  dims_kinds<R, C, 1, R>();
  dims_kinds<R, C, 2 * C + 1, 2>();
  dims_kinds<R, C, 1, R + 2>();
}

// Shapes and strides at run time only, including negative and zero strides and a displaced start.
void runtime_only() {
  const int n = E->thorough ? 6 : 4;
  for (I r = 1; r <= n; ++r)
    for (I c = 1; c <= n; ++c)
      for (I rs : {I(0), I(1), I(2), I(5), I(7), I(13), I(-1), I(-7), r, r + 1, c, 2 * c + 3})
        for (I cs : {I(0), I(1), I(2), I(3), I(11), I(-1), I(-9), r, r + 3, c})
          for (I start : {I(0), I(17), I(-40)}) {
            std::ostringstream w;
            w << "dynamic span " << r << "x" << c << " strides " << rs << "," << cs << " from " << start;
            double* p = mid + start;
            const auto s = make_span(p, make_value_pack(r, c), make_value_pack(rs, cs));
            all2(w.str(), s, p, r, c, rs, cs);
            if (E->next()) {
              blocks2(w.str(), s, p, r, c, rs, cs, 1);
              E->count["transitions_decided"]++;
            }
          }
}

// ------------------------------------------------------------------ one and three dimensions
template <Z N, Z ST, bool D, bool S>
void one_dim() {
  if (!E->next()) return;
  std::ostringstream w;
  w << "span " << N << (D ? "d" : "") << " stride " << ST << (S ? "d" : "");
  const auto s = make_span(mid, make_value_pack(dim_of<N, D>::make()), make_value_pack(dim_of<ST, S>::make()));
  eq("rows()", w.str(), s.rows(), N);
  eq("dimension<>()", w.str(), s.template dimension<0>(), N);
  eq("stride<>()", w.str(), s.template stride<0>(), ST);
  for (I i = 0; i < I(N); ++i) {
    if (&s[i] != mid + i * I(ST) || &s(i) != &s[i] || &s(int(i)) != &s[i] || &s.as_const()[i] != &s[i]) fail("operator[]", at(w.str(), i, 0));
    for (I m = 1; i + m <= I(N); ++m) {
      const auto b = s.block(make_value_pack(i), make_value_pack(m));
      eq("rows()", w.str() + ".block", b.rows(), Z(m));
      for (I k = 0; k < m; ++k)
        if (&b[k] != mid + (i + k) * I(ST)) fail("block of a 1D span", at(w.str(), i, k));
    }
  }
  E->count["transitions_decided"]++;
}
template <Z N, Z ST>
void one_dim_kinds() {
  one_dim<N, ST, false, false>();
  one_dim<N, ST, false, true>();
  one_dim<N, ST, true, false>();
  one_dim<N, ST, true, true>();
}
template <Z N>
void one_dims() {
  one_dim_kinds<N, 1>();
  one_dim_kinds<N, 2>();
  one_dim_kinds<N, 5>();
}

template <Z A, Z B, Z C, Z X, Z Y, Z W, unsigned K>
void three_dim() {
  if (!E->next()) return;
  std::ostringstream w;
  w << "span " << A << "x" << B << "x" << C << " strides " << X << "," << Y << "," << W << " kinds " << K;
  const auto s = make_span(mid, make_value_pack(dim_of<A, bool(K & 1)>::make(), dim_of<B, bool(K & 2)>::make(), dim_of<C, bool(K & 4)>::make()),
                           make_value_pack(dim_of<X, bool(K & 8)>::make(), dim_of<Y, bool(K & 16)>::make(), dim_of<W, bool(K & 32)>::make()));
  eq("dimension<>()", w.str(), s.template dimension<0>() * 10000 + s.template dimension<1>() * 100 + s.template dimension<2>(), A * 10000 + B * 100 + C);
  eq("stride<>()", w.str(), s.template stride<0>() * 10000 + s.template stride<1>() * 100 + s.template stride<2>(), X * 10000 + Y * 100 + W);
  eq("rows()", w.str(), s.rows(), A);
  eq("cols()", w.str(), s.cols(), B);
  auto el = [&](const auto& v, I a, I b, I c, I na, I nb, I nc) {
    for (I i = 0; i < na; ++i)
      for (I j = 0; j < nb; ++j)
        for (I k = 0; k < nc; ++k)
          if (&v(i, j, k) != mid + (a + i) * I(X) + (b + j) * I(Y) + (c + k) * I(W)) {
            fail("operator() of a 3D span", at(w.str(), i, j) + " " + std::to_string(k));
            return;
          }
  };
  el(s, 0, 0, 0, A, B, C);
  el(s.as_const(), 0, 0, 0, A, B, C);
  for (I i = 0; i < I(A); ++i)
    for (I j = 0; j < I(B); ++j)
      for (I k = 0; k < I(C); ++k) {
        const auto b = s.block(make_value_pack(i, j, k), make_value_pack(I(A) - i, I(B) - j, I(C) - k));
        eq("dimension<>()", w.str() + ".block", b.template dimension<2>(), C - Z(k));
        el(b, i, j, k, I(A) - i, I(B) - j, I(C) - k);
      }
  E->count["transitions_decided"]++;
}
template <Z A, Z B, Z C, Z X, Z Y, Z W, unsigned K>
struct kinds3 {
  static void go() {
    three_dim<A, B, C, X, Y, W, K>();
    kinds3<A, B, C, X, Y, W, K - 1>::go();
  }
};
template <Z A, Z B, Z C, Z X, Z Y, Z W>
struct kinds3<A, B, C, X, Y, W, 0> {
  static void go() { three_dim<A, B, C, X, Y, W, 0>(); }
};

// ------------------------------------------------------------------ arrays
template <typename Array, typename T>
void array_span(const std::string& w, Array& a, T* first, Z n) {
  if (!E->next()) return;
  const auto s = wf::make_array_span(a);
  static_assert(std::is_same<typename decltype(s)::element_type, T>::value || std::is_same<typename decltype(s)::element_type, const T>::value, "");
  static_assert(std::is_const<typename decltype(s)::element_type>::value == (std::is_const<Array>::value || std::is_const<T>::value), "");
  eq("make_array_span rows", w, s.rows(), n);
  eq("make_array_span stride", w, s.template stride<0>(), Z(1));
  eq("make_array_span data", w, (const void*)s.data(), (const void*)first);
  for (Z i = 0; i < n; ++i)
    if (&s[I(i)] != first + i) fail("make_array_span", at(w, I(i), 0));
  E->count["transitions_decided"]++;
}
template <Z N>
void arrays() {
  std::array<double, N> a{};
  const std::array<double, N> ca{};
  double c[N] = {};
  const double cc[N] = {};
  float f[N] = {};
  array_span("std::array", a, a.data(), N);
  array_span("const std::array", ca, ca.data(), N);
  array_span("C array", c, &c[0], N);
  array_span("const C array", cc, &cc[0], N);
  array_span("float array", f, &f[0], N);
  std::vector<double> v(N);
  const std::vector<float> cv(N);
  array_span("vector", v, v.data(), N);
  array_span("const vector", cv, cv.data(), N);
}

template <Z R, Z C>
void conversions() {
  using P = wf::constant_value_pack<R, C>;
  const std::string w = std::to_string(R) + "x" + std::to_string(C);
  static_assert(wf::is_value_pack_v<P> && wf::is_constant_value_pack_v<P>, "");
  static_assert(wf::constant_value_pack_axis_v<0, P> == R && wf::constant_value_pack_axis_v<1, P> == C && wf::value_pack_length_v<P> == 2, "");
  if (E->next()) {
    std::nullptr_t np{};
    auto n = wf::make_optional_output_span<R, C>(np);
    auto m = wf::make_always_null_span<P>();
    eq("null span is false", w, bool(n), false);
    eq("null span is false", w, bool(m), false);
    eq("null span shape", w, m.rows() * 100 + m.cols(), R * 100 + C);
    eq("null span shape", w, n.rows() * 100 + n.cols(), R * 100 + C);
    E->count["transitions_decided"]++;
  }
  if (E->next()) {
    auto s = make_span(mid, P{}, make_value_pack(7, constant<2>{}));
    elements2(w + " input span of a span", wf::make_input_span<R, C>(s), mid, R, C, 7, 2);
    elements2(w + " output span of a span", wf::make_output_span<R, C>(s), mid, R, C, 7, 2);
    elements2(w + " optional span of a span", wf::make_optional_output_span<R, C>(s), mid, R, C, 7, 2);
    const auto k = s.as_const();
    elements2(w + " input span of a const span", wf::make_input_span<R, C>(k), mid, R, C, 7, 2);
    auto z = make_span(static_cast<double*>(nullptr), P{}, make_value_pack(7, 2));
    eq("optional span of a null span", w, bool(wf::make_optional_output_span<R, C>(z)), false);
    E->count["transitions_decided"]++;
  }
}

// ------------------------------------------------------------------ Eigen
// x: an Eigen object; every element of the span must be the element x(i, j) of the object.
template <Z R, Z C, typename X>
void eigen(const std::string& w, X& x) {
  if (!E->next()) return;
  const auto s = wf::make_input_span<R, C>(x);
  eq("rows() of an Eigen span", w, s.rows(), R);
  eq("cols() of an Eigen span", w, s.cols(), C);
  static_assert(std::decay_t<decltype(s.dimensions())>::known_at_compile_time, "");
  eq("data() of an Eigen span", w, (const void*)s.data(), (const void*)x.data());
  for (I i = 0; i < I(R); ++i)
    for (I j = 0; j < I(C); ++j)
      if (s(i, j) != x(i, j) || (const void*)&s(i, j) != (const void*)(x.data() + i * x.rowStride() + j * x.colStride())) {
        fail("element of an Eigen span", at(w, i, j) + ": " + std::to_string(s(i, j)) + ", expected " + std::to_string(x(i, j)));
        return;
      }
  E->count["transitions_decided"]++;
  uint64_t h = ex::Explorer::mix(R * 31 + C);
  for (char c : w) h = ex::Explorer::mix(h + uint64_t(c));
  E->state(h);
  E->sample([&] { return w; });
}
template <Z R, Z C, typename X>
void eigen_mut(const std::string& w, X& x) {
  eigen<R, C>(w, x);
  if (!E->next()) return;
  auto s = wf::make_output_span<R, C>(x);
  auto o = wf::make_optional_output_span<R, C>(x);
  static_assert(!std::is_const<typename decltype(s)::element_type>::value, "");
  std::vector<double> before;
  for (I i = 0; i < I(R); ++i)
    for (I j = 0; j < I(C); ++j) before.push_back(x(i, j));
  for (I i = 0; i < I(R); ++i)
    for (I j = 0; j < I(C); ++j) {
      if (&s(i, j) != &o(i, j)) fail("optional output span", at(w, i, j));
      s(i, j) = -1000 - double(i * 10 + j);
    }
  for (I i = 0; i < I(R); ++i)
    for (I j = 0; j < I(C); ++j)
      if (x(i, j) != -1000 - double(i * 10 + j)) {
        fail("element written through an Eigen span", at(w, i, j));
        i = R;
        break;
      }
  Z k = 0;
  for (I i = 0; i < I(R); ++i)
    for (I j = 0; j < I(C); ++j) x(i, j) = before[k++];
  E->count["transitions_decided"]++;
}

void fill() {
  for (int i = 0; i < 4096; ++i) store[i] = i;
}

template <Z R, Z C, int Opt>
void eigen_storage(const std::string& w0) {
  using M = Eigen::Matrix<double, int(R), int(C), Opt>;
  namespace eg = Eigen;
  const std::string w = w0 + " " + std::to_string(R) + "x" + std::to_string(C);
  constexpr int inner = Opt == eg::RowMajor ? int(C) : int(R);
  M m;
  for (I i = 0; i < I(R * C); ++i) m.data()[i] = double(i + 1);
  const M& cm = m;
  eigen_mut<R, C>(w + " Matrix", m);
  eigen<R, C>(w + " const Matrix", cm);
  eg::Map<M> map(mid);
  eigen_mut<R, C>(w + " Map", map);
  eg::Map<const M> cmap(mid);
  eigen<R, C>(w + " Map const", cmap);
  if (R > 1 && C > 1) {
    eg::Map<M, 0, eg::OuterStride<>> os(mid, eg::OuterStride<>(inner + 3));
    eigen_mut<R, C>(w + " Map OuterStride<>", os);
    eg::Map<const M, 0, eg::OuterStride<inner + 2>> osc(mid);
    eigen<R, C>(w + " Map OuterStride<k>", osc);
    eg::Ref<M, 0, eg::OuterStride<>> ro(os);
    eigen_mut<R, C>(w + " Ref OuterStride<>", ro);
  }
  eg::Map<M, 0, eg::InnerStride<2>> is(mid);
  eigen_mut<R, C>(w + " Map InnerStride<2>", is);
  eg::Map<M, 0, eg::InnerStride<>> isd(mid, eg::InnerStride<>(3));
  eigen_mut<R, C>(w + " Map InnerStride<>", isd);
  eg::Map<M, 0, eg::Stride<eg::Dynamic, eg::Dynamic>> st(mid, eg::Stride<eg::Dynamic, eg::Dynamic>(2 * inner + 5, 2));
  eigen_mut<R, C>(w + " Map Stride<>", st);
  eg::Map<M, 0, eg::Stride<3 * inner + 1, 3>> stc(mid);
  eigen_mut<R, C>(w + " Map Stride<k, 3>", stc);
  eg::Map<M, 0, eg::Stride<eg::Dynamic, 2>> std2(mid, eg::Stride<eg::Dynamic, 2>(2 * inner + 1, 2));
  eigen_mut<R, C>(w + " Map Stride<Dynamic, 2>", std2);
  eg::Ref<M> ref(m);
  eigen_mut<R, C>(w + " Ref", ref);
  eg::Ref<const M> cref(m);
  eigen<R, C>(w + " Ref const", cref);
  auto t = m.transpose();
  eigen_mut<C, R>(w + " transpose", t);
  auto ct = cm.transpose();
  eigen<C, R>(w + " const transpose", ct);
  auto tst = st.transpose();
  eigen_mut<C, R>(w + " transpose of Map Stride<>", tst);
  // Blocks of larger matrices of both storage orders, with compile-time and run-time sizes.
  using Big = Eigen::Matrix<double, 6, 7, Opt>;
  using Dyn = Eigen::Matrix<double, eg::Dynamic, eg::Dynamic, Opt>;
  Big big;
  for (int i = 0; i < 42; ++i) big.data()[i] = i + 1;
  Dyn dyn = big;
  const Big& cbig = big;
  for (int i = 0; i + int(R) <= 6; ++i)
    for (int j = 0; j + int(C) <= 7; ++j) {
      const std::string wb = w + " block at " + std::to_string(i) + "," + std::to_string(j);
      auto b = big.template block<int(R), int(C)>(i, j);
      eigen_mut<R, C>(wb, b);
      auto cb = cbig.template block<int(R), int(C)>(i, j);
      eigen<R, C>(wb + " const", cb);
      auto d = dyn.template block<int(R), int(C)>(i, j);
      eigen_mut<R, C>(wb + " of a dynamic matrix", d);
      auto bt = dyn.template block<int(R), int(C)>(i, j).transpose();
      eigen_mut<C, R>(wb + " transposed", bt);
      auto bb = b.template block<1, int(C)>(int(R) - 1, 0);
      eigen_mut<1, C>(wb + " last row", bb);
      auto bc = b.template block<int(R), 1>(0, int(C) - 1);
      eigen_mut<R, 1>(wb + " last column", bc);
      eg::Ref<Eigen::Matrix<double, int(R), int(C), Opt>, 0, eg::Stride<eg::Dynamic, eg::Dynamic>> rr(d);
      eigen_mut<R, C>(wb + " Ref of a block", rr);
    }
  for (int i = 0; i < int(R); ++i) {
    auto row = m.row(i);
    eigen_mut<1, C>(w + " row " + std::to_string(i), row);
    auto rt = m.row(i).transpose();
    eigen_mut<C, 1>(w + " row transposed " + std::to_string(i), rt);
    auto sr = st.row(i);
    eigen_mut<1, C>(w + " row of a strided map " + std::to_string(i), sr);
  }
  for (int j = 0; j < int(C); ++j) {
    auto col = m.col(j);
    eigen_mut<R, 1>(w + " column " + std::to_string(j), col);
    auto ctt = m.col(j).transpose();
    eigen_mut<1, R>(w + " column transposed " + std::to_string(j), ctt);
    auto sc = st.col(j);
    eigen_mut<R, 1>(w + " column of a strided map " + std::to_string(j), sc);
  }
}

template <Z R, Z C>
void eigen_shape() {
  if constexpr (R == 1 && C == 1) {
    eigen_storage<R, C, Eigen::ColMajor>("column-major");
  } else {
    if constexpr (R != 1) eigen_storage<R, C, Eigen::ColMajor>("column-major");
    if constexpr (C != 1) eigen_storage<R, C, Eigen::RowMajor>("row-major");
  }
}

// ------------------------------------------------------------------ large buffers
// Positions beyond 2^31 and 2^32 elements, of which only the address is taken.
template <typename S>
void far2(const std::string& w, const S& s, const char* base, I rs, I cs) {
  if (!E->next()) return;
  const I big = I(1) << 31;
  std::vector<I> idx = {0, 1, 2, 7, 32768, 65537, big - 1, big, big + 3, 2 * big - 1, 2 * big, 2 * big + 5, -1, -big, -big - 7};
  auto fits = [](I a, I b) { return __int128(a) * b < (I(1) << 60) && __int128(a) * b > -(I(1) << 60); };
  for (I i : idx)
    for (I j : idx) {
      if (!fits(i, rs) || !fits(j, cs)) continue;
      const I want = i * rs + j * cs;
      bool ok = s.compute_index(i, j) == want;
      if (i >= 0 && j >= 0) ok = ok && s.compute_index(Z(i), Z(j)) == want && s.compute_index(i, Z(j)) == want;
      if (i == I(int(i)) && j == I(int(j))) ok = ok && s.compute_index(int(i), int(j)) == want && s.compute_index(int(i), j) == want;
      ok = ok && reinterpret_cast<uintptr_t>(&s(i, j)) == reinterpret_cast<uintptr_t>(base) + uintptr_t(want);
      if (!ok) fail("element of a large buffer", at(w, i, j) + ": " + std::to_string(s.compute_index(i, j)) + ", expected " + std::to_string(want));
      const auto b = s.block(make_value_pack(i, j), make_value_pack(Z(3), I(5) * big));
      if (reinterpret_cast<uintptr_t>(b.data()) != reinterpret_cast<uintptr_t>(base) + uintptr_t(want)) fail("block of a large buffer", at(w, i, j));
      if (b.rows() != 3 || b.cols() != Z(5) * Z(big) || b.template dimension<1>() != Z(5) * Z(big)) fail("size of a block of a large buffer", at(w, i, j));
      E->count["transitions_decided"]++;
    }
  E->sample([&] { return w; });
}
template <Z RS, Z CS>
void far_strides() {
  char* base = reinterpret_cast<char*>(uintptr_t(1) << 61);
  const std::string w = "large buffer, strides " + std::to_string(RS) + "," + std::to_string(CS);
  const Z big = Z(1) << 32;
  auto dims = make_value_pack(big + 2, Z(7) * big);
  far2(w, make_span(base, dims, make_value_pack(RS, CS)), base, RS, CS);
  far2(w + " (const)", make_span(base, dims, make_constant_value_pack<RS, CS>()).as_const(), base, RS, CS);
  far2(w + " (mixed)", make_span(base, make_constant_value_pack<(Z(1) << 33), 3>(), make_value_pack(constant<RS>{}, dynamic(CS))), base, RS, CS);
  far2(w + " (negative)", make_span(base, dims, make_value_pack(-I(RS), I(CS))), base, -I(RS), CS);
  if (E->next()) {
    const auto s = make_span(base, dims, make_value_pack(RS, CS));
    eq("rows()", w, s.rows(), big + 2);
    eq("cols()", w, s.cols(), Z(7) * big);
    eq("stride<>()", w, s.template stride<0>(), RS);
    eq("stride<>()", w, s.template stride<1>(), CS);
    for (I i : {I(1) << 31, (I(1) << 32) + 3, I(65536)})
      if (RS < (Z(1) << 27)) {
        const auto one = make_span(base, make_value_pack(big), make_value_pack(RS));
        if (one.compute_index(i) != i * I(RS) || reinterpret_cast<uintptr_t>(&one[i]) != reinterpret_cast<uintptr_t>(base) + uintptr_t(i) * RS) fail("element of a large 1D buffer", at(w, i, 0));
        const auto three = make_span(base, make_value_pack(2, 2, 2), make_value_pack(CS, RS, 3));
        if (three.compute_index(1, i, i) != I(CS) + i * I(RS) + 3 * i) fail("element of a large 3D buffer", at(w, i, i));
        const auto four = make_span(base, make_value_pack(2, 2, 2, 2), make_value_pack(CS, RS, 3, 1));
        if (four.compute_index(1, i, 2, i) != I(CS) + i * I(RS) + 6 + i) fail("element of a large 4D buffer", at(w, i, i));
      }
    E->count["transitions_decided"]++;
  }
}
void far_away() {
  far_strides<1, 1>();
  far_strides<32769, 1>();
  far_strides<65536, 65536>();
  far_strides<1, (Z(1) << 31) - 1>();
  far_strides<(Z(1) << 31), 1>();
  far_strides<(Z(1) << 31) + 9, 2>();
  far_strides<(Z(1) << 32), 1>();
  far_strides<3, (Z(1) << 32) + 1>();
  far_strides<(Z(1) << 40) + 1, (Z(1) << 20) + 1>();
}

// Four dimensions, other element types and empty Eigen maps.
struct wide {
  double a[5];
};
template <typename T>
void element_type(const std::string& w) {
  if (!E->next()) return;
  T buf[64];
  const auto s = make_span(&buf[20], make_value_pack(2, 2, constant<3>{}, 2), make_value_pack(constant<13>{}, 5, I(-2), 1));
  static_assert(decltype(s)::num_dimensions == 4 && std::is_same<typename decltype(s)::value_type, T>::value, "");
  const wf::span<const T, std::decay_t<decltype(s.dimensions())>, std::decay_t<decltype(s.strides())>> k = s;
  static_assert(std::is_same<typename decltype(k)::value_type, T>::value, "");
  for (I a = 0; a < 2; ++a)
    for (I b = 0; b < 2; ++b)
      for (I c = 0; c < 3; ++c)
        for (I d = 0; d < 2; ++d) {
          const T* want = &buf[20 + 13 * a + 5 * b - 2 * c + d];
          if (&s(a, b, c, d) != want || &k(a, b, c, d) != want || &s.as_const()(a, b, c, d) != want) fail("4D span", w);
          const auto q = s.block(make_value_pack(a, b, c, d), make_value_pack(1, 2 - b, 3 - c, 2 - d));
          if (&q(0, 0, 0, 0) != want || &q(0, 1 - b, 2 - c, 1 - d) != &buf[20 + 13 * a + 5 - 4 + 1] || q.template dimension<2>() != Z(3 - c)) fail("block of a 4D span", w);
        }
  std::vector<T> v(5);
  const auto m = wf::make_array_span(v);
  const auto mb = m.block(make_value_pack(2), make_value_pack(constant<3>{}));
  for (I i = 0; i < 3; ++i)
    if (&mb[i] != &v[Z(2 + i)]) fail("block of a vector", w);
  eq("rows()", w, mb.rows(), Z(3));
  E->count["transitions_decided"]++;
}
template <Z R, Z C>
void empty_maps() {
  if (!E->next()) return;
  constexpr int opt = R == 1 ? int(Eigen::RowMajor) : int(Eigen::ColMajor);
  Eigen::Map<Eigen::Matrix<double, int(R), int(C), opt>> none(nullptr), some(mid);
  auto o = wf::make_optional_output_span<R, C>(none);
  auto p = wf::make_optional_output_span<R, C>(some);
  eq("span of an empty map", std::to_string(R) + "x" + std::to_string(C), bool(o), false);
  eq("span of a map", std::to_string(R) + "x" + std::to_string(C), bool(p), true);
  eq("span of an empty map: shape", "", o.rows() * 100 + o.cols(), R * 100 + C);
  E->count["transitions_decided"]++;
}
void others() {
  element_type<double>("double");
  element_type<float>("float");
  element_type<char>("char");
  element_type<std::int64_t>("int64");
  element_type<wide>("struct of 40 bytes");
  empty_maps<1, 1>();
  empty_maps<2, 3>();
  empty_maps<3, 1>();
  empty_maps<1, 4>();
}

void quaternions() {
  auto chk = [](const std::string& w, auto& q) {
    if (!E->next()) return;
    const auto s = wf::make_input_span<4, 1>(q);
    eq("quaternion rows", w, s.rows(), Z(4));
    eq("quaternion cols", w, s.cols(), Z(1));
    for (int i = 0; i < 4; ++i)
      if (s(i, 0) != q.coeffs()[i] || (const void*)&s(i, 0) != (const void*)(q.coeffs().data() + i)) fail("quaternion span", at(w, i, 0));
    if (s(0, 0) != q.x() || s(1, 0) != q.y() || s(2, 0) != q.z() || s(3, 0) != q.w()) fail("quaternion order", w);
    E->count["transitions_decided"]++;
  };
  auto wr = [](const std::string& w, auto& q) {
    if (!E->next()) return;
    auto s = wf::make_output_span<4, 1>(q);
    for (int i = 0; i < 4; ++i) s(i, 0) = 50 + i;
    if (q.x() != 50 || q.y() != 51 || q.z() != 52 || q.w() != 53) fail("quaternion written", w);
    E->count["transitions_decided"]++;
  };
  Eigen::Quaterniond q(1, 2, 3, 4);
  const Eigen::Quaterniond cq(5, 6, 7, 8);
  Eigen::Quaternionf f(1, 2, 3, 4);
  Eigen::Map<Eigen::Quaterniond> m(mid);
  Eigen::Map<const Eigen::Quaterniond> cm(mid + 9);
  Eigen::Quaternion<double, Eigen::DontAlign> u(1, 2, 3, 4);
  chk("Quaterniond", q);
  chk("const Quaterniond", cq);
  chk("Quaternionf", f);
  chk("Map", m);
  chk("Map const", cm);
  chk("DontAlign", u);
  wr("Quaterniond", q);
  wr("Quaternionf", f);
  wr("Map", m);
  wr("DontAlign", u);
}
}  // namespace

int main(int argc, char** argv) {
  return ex::explorer_main(argc, argv, [](ex::Explorer& e) {
    E = &e;
    fill();
#if PART < 4
    shape<PART + 1, 1>();
    shape<PART + 1, 2>();
    shape<PART + 1, 3>();
    shape<PART + 1, 4>();
#elif PART < 8
    constexpr Z R = PART - 3;
    eigen_shape<R, 1>();
    fill();
    eigen_shape<R, 2>();
    fill();
    eigen_shape<R, 3>();
    fill();
    eigen_shape<R, 4>();
#else
    runtime_only();
    far_away();
    others();
    one_dims<1>();
    one_dims<2>();
    one_dims<3>();
    one_dims<5>();
    kinds3<2, 3, 4, 12, 4, 1, 63>::go();
    kinds3<3, 1, 2, 1, 3, 3, 63>::go();
    kinds3<2, 2, 3, 20, 7, 2, 63>::go();
    arrays<1>();
    arrays<2>();
    arrays<3>();
    arrays<7>();
    conversions<1, 1>();
    conversions<2, 3>();
    conversions<3, 1>();
    conversions<1, 4>();
    conversions<4, 4>();
    quaternions();
#endif
  });
}
