// C15: results do not depend on history, on the order of independent calls, on memory addresses or on
// the contents of uninitialised or freed memory; inputs are never modified.
#include <malloc.h>

#include "programs.h"
#include "wf/code_generation/cpp_code_generator.h"
#include "wf/code_generation/python_code_generator.h"
#include "wf/code_generation/rust_code_generator.h"
#include "wf/cse.h"
#include "wf/collect.h"
#include "wf/derivative.h"
#include "wf/distribute.h"
#include "wf/geometry/quaternion.h"
#include "wf/matrix_functions.h"
#include "wf/number_set.h"
#include "wf/substitute.h"
#include "wf/tree_formatter.h"
#include "wf/evaluate.h"

// ---------------------------------------------------------------------------------------------
// The allocator is part of the environment that is enumerated.
namespace alloc {
enum Policy { system_, ascending, descending, alternating, scattered, reusing, n_policies };
std::string name(int p) {
  static const char* n[] = {"system", "ascending", "descending", "alternating", "scattered", "reusing"};
  return p < n_policies ? n[p] : "scattered " + std::to_string(p - n_policies + 1);
}
int policy = system_;
char *base = nullptr, *lo = nullptr, *hi = nullptr;
constexpr std::size_t arena = std::size_t(1) << 32;
constexpr std::size_t regions = 64;
std::size_t used[regions];
uint64_t lcg = 1;
bool flip = false;

// Policies from n_policies on are `scattered` with other sequences of regions.
void start(int p) {
  if (p >= n_policies) lcg = static_cast<uint64_t>(p) * 0x9e3779b97f4a7c15ull, p = scattered;
  if (p != system_ && p != reusing) {
    base = static_cast<char*>(mmap(nullptr, arena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) _exit(9);
    lo = base, hi = base + arena;
  }
  policy = p;
}
inline bool inside(void* p) { return base && p >= base && p < base + arena; }
void* get(std::size_t n) {
  n = (n + 31) & ~std::size_t(15);
  char* p = nullptr;
  switch (policy) {
    case ascending: p = lo; lo += n; break;
    case descending: hi -= n; p = hi; break;
    case alternating:
      flip = !flip;
      if (flip) p = lo, lo += n;
      else hi -= n, p = hi;
      break;
    case scattered: {
      lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
      const std::size_t r = (lcg >> 33) % regions;
      if (used[r] + n > arena / regions) _exit(9);
      p = base + r * (arena / regions) + used[r];
      used[r] += n;
      break;
    }
    default: p = static_cast<char*>(malloc(n));
  }
  if (!p) _exit(9);
  if (policy != system_) memset(p, policy == reusing ? 0xAA : 0x5A, n);
  return p;
}
void put(void* p) {
  if (!p) return;
  if (inside(p)) return;  // never reused
  if (policy == reusing) memset(p, 0xDD, malloc_usable_size(p));
  free(p);
}
}  // namespace alloc
void* operator new(std::size_t n) { return alloc::get(n); }
void* operator new[](std::size_t n) { return alloc::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
void operator delete(void* p) noexcept { alloc::put(p); }
void operator delete[](void* p) noexcept { alloc::put(p); }
void operator delete(void* p, std::size_t) noexcept { alloc::put(p); }
void operator delete[](void* p, std::size_t) noexcept { alloc::put(p); }

using namespace h;
namespace {
using M = wf::matrix_expr;
// ---------------------------------------------------------------------------------------------
// Inputs that all operations share.
struct In {
  Vars v;
  Opaque o;
  Types t;
  S p1, p2, rat, trig, cond, nest, opq, big, ratio;
  M a, b, w, sq;
  In()
      : p1((v.x + 2 * v.y) * (v.x - v.p) + wf::pow(v.x + v.r, I(2)) - v.s * v.n),
        p2(wf::pow(v.x + v.y + v.r, I(3)) * (v.x - 1)),
        rat((v.x * v.y - Q(2, 3)) / (v.r + v.s) + wf::pow(v.p, Q(3, 2)) * wf::sqrt(v.n * v.p)),
        trig(wf::sin(v.x * v.y) * wf::cos(v.x * v.y) + wf::atan2(v.r, v.s) * wf::log(v.p) - wf::tanh(v.x)),
        cond(wf::where(v.r < v.s, wf::sin(v.x) * v.y, wf::max(v.r, v.s * 2)) + wf::abs(v.r - v.s)),
        nest(wf::where(v.r < v.s, wf::where(v.s < v.p, trig, cond), wf::where(v.r == I(0), p1, trig * cond))),
        opq(fnv(o.f, {v.x * v.y, o.field(1)}) + o.call_s(v.x + v.y) * o.call_m(v.x, v.y, v.r)[1] + wf::stop_diff(v.x * v.r) * wf::make_unevaluated(v.x + v.y)),
        big(I(0)),
        ratio((v.x + v.y) / (v.x * v.p) + 1.5 * v.s + wf::constants::pi * wf::constants::euler),
        a(wf::make_matrix(2, 3, v.x, v.y * 2, I(0), wf::sin(v.r), v.x * v.y, Q(1, 2))),
        b(wf::make_matrix(3, 2, v.s, v.x, I(1), v.p + v.r, wf::pow(v.x, I(2)), v.y)),
        w(wf::make_vector(v.x, v.y, v.r)),
        sq(wf::make_matrix(3, 3, v.x, v.y, I(0), v.r, v.x * v.s, I(2), v.p, I(1), v.x + v.y)) {
    for (int i = 0; i < 9; ++i) big = big + wf::pow(v.x, I(i % 3)) * wf::pow(v.y, I(i / 3)) * (i % 2 ? v.r : v.s) * I(i - 3 ? i - 3 : 7);
  }
  std::vector<wf::any_expression> all() const { return {p1, p2, rat, trig, cond, nest, opq, big, ratio, a, b, w, sq, v.x, v.y, v.r, v.s, v.p, v.n}; }
};
std::string str(const S& e) { return e.to_string(); }
std::string str(const M& e) { return e.to_string(); }
std::string str(const wf::boolean_expr& e) { return e.to_string(); }
std::string str(const wf::compound_expr& e) { return e.to_string(); }
std::string str(const wf::any_expression& a) {
  return std::visit([](const auto& x) { return str(x); }, a);
}
template <typename E>
std::string tree(const E& e) {
  wf::tree_formatter_visitor f;
  f(e);
  return f.take_output();
}
// Unique variables are numbered globally by design: name them by their rank.
std::string normalise(const std::string& s) {
  if (s.find("$u_") == std::string::npos) return s;
  std::map<unsigned long long, int> rank;
  for (std::size_t p = 0; (p = s.find("$u_", p)) != std::string::npos; p += 3) rank[strtoull(s.c_str() + p + 3, nullptr, 10)] = 0;
  int n = 0;
  for (auto& [k, r] : rank) r = n++;
  std::string o;
  for (std::size_t p = 0; p < s.size();) {
    if (s.compare(p, 3, "$u_") == 0) {
      char* end = nullptr;
      const auto k = strtoull(s.c_str() + p + 3, &end, 10);
      o += "$u#" + std::to_string(rank[k]);
      p = static_cast<std::size_t>(end - s.c_str());
    } else {
      o += s[p++];
    }
  }
  return o;
}
struct MatGen final : wf::cpp_code_generator {
  MatGen() : cpp_code_generator(wf::cpp_matrix_type_behavior::generic_span) {}
  using cpp_code_generator::operator();
  std::string operator()(const wf::matrix_type& m) const override { return "M<" + std::to_string(m.rows()) + "," + std::to_string(m.cols()) + ">"; }
  std::string operator()(const ast::construct_matrix& x) const override {
    std::string s = "M(";
    for (const auto& q : x.args) s += cpp_code_generator::operator()(q) + ",";
    return s + ")";
  }
};
struct RsGen final : wf::rust_code_generator {
  using rust_code_generator::operator();
  std::string operator()(const wf::matrix_type& m) const override { return "M<" + std::to_string(m.rows()) + "," + std::to_string(m.cols()) + ">"; }
  std::string operator()(const ast::construct_matrix& x) const override {
    std::string s = "M(";
    for (const auto& q : x.args) s += rust_code_generator::operator()(q) + ",";
    return s + ")";
  }
};
// The text of everything that is made from a function description.
std::string generate(const Types& t, const Body& body, int what = 31) {
  FB b(t, "fn");
  body(b);
  std::string r;
  for (bool ternaries : {true, false}) {
    const wf::control_flow_graph g0{b.d, wf::optimization_params{}};
    if (what & 1) r += g0.to_string();
    wf::control_flow_graph g = wf::control_flow_graph{b.d, wf::optimization_params{}}.convert_conditionals_to_control_flow(ternaries);
    if (what & 1) r += g.to_string();
    const ast::function_definition f = ast::create_ast(g, b.d);
    if (what & 2) r += MatGen{}(f) + wf::cpp_code_generator(wf::cpp_matrix_type_behavior::eigen)(f);
    if (what & 4) r += RsGen{}(f);
    if (what & 8) {
      using P = wf::python_generator_target;
      using W = wf::python_generator_float_width;
      r += wf::python_code_generator(P::numpy, W::float64, 2, false)(f) + wf::python_code_generator(P::jax, W::float32, 4, false)(f) + wf::python_code_generator(P::pytorch, W::float64, 2, false)(f);
    }
    if (what & 16 && ternaries) {
      for (bool requested : {false, true}) {
        std::unordered_map<std::string, bool> opt;
        for (const auto& o : b.optionals()) opt[o] = requested;
        const auto q = wf::rebuild_expression_tree(g.first_block(), opt, requested);
        std::map<std::string, std::string> sorted;
        for (const auto& [k, e] : q.output_expressions) sorted[std::to_string(static_cast<int>(k.usage)) + k.name] = str(e);
        for (const auto& [k, s] : sorted) r += k + "=" + s + "\n";
      }
    }
  }
  return r;
}

// Symmetric functions: conditions, pairs and factors that occur equally often.
void ties(const Visit& vis) {
  for (int n = 3; n <= 6; ++n)
    for (int form = 0; form < 8; ++form)
      vis("T" + std::to_string(form) + "_" + std::to_string(n), [=](FB& b) {
        static const char* names[] = {"a", "b", "c", "d", "e", "f"};
        std::vector<S> v;
        for (int i = 0; i < n; ++i) v.push_back(b.f(names[i]));
        auto at = [&](int i) { return v[static_cast<std::size_t>(i % n)]; };
        S s = I(0), q = I(1);
        for (int i = 0; i < n; ++i) {
          const S c1 = wf::where(at(i) < at(i + 1), wf::sin(at(i)), at(i + 1) * at(i + 2)), c2 = wf::where(at(i) < at(i + 1), wf::cos(at(i + 1)), at(i) * at(i + 2));
          switch (form) {
            case 0: s = s + c1; break;
            case 1: s = s + c1 * c2; break;
            case 2: s = s + wf::where(at(i + 2) < at(i), c1, c2); break;
            case 3: s = s + at(i) * at(i + 1) * at(i + 2) + at(i) * at(i + 1) * wf::sin(at(i + 2)); break;
            case 4: s = s + wf::sin(at(i) * at(i + 1)) * wf::cos(at(i) + at(i + 2)) + at(i) * at(i + 1); break;
            case 5: s = s + wf::pow(at(i), I(2)) * at(i + 1) + wf::pow(at(i + 1), I(2)) * at(i); break;
            case 6: s = s + wf::sin(at(i) + at(i + 1) + at(i + 2)) + wf::cos(at(i) + at(i + 1)); break;
            default: q = q * (at(i) + at(i + 1) + 1), s = s + c1; break;
          }
          if (i % 2) b.out(("o" + std::to_string(i)).c_str(), s * at(i));
        }
        b.ret(s * q);
      });
}
struct Target {
  std::string name;
  std::function<std::string(const In&)> run;
};
std::string replacements(const std::vector<std::tuple<S, S>>& r) {
  std::string o;
  for (const auto& [a, b] : r) o += " | " + str(a) + "=" + str(b);
  return o;
}
std::string sets(const In& in) {
  std::string o;
  for (const S& e : {in.p1, in.rat, in.trig, in.cond, in.ratio, in.v.p + in.v.n, in.v.p * in.v.n, wf::abs(in.v.x), wf::pow(in.v.r, I(2))}) o += std::string(wf::string_from_number_set(wf::determine_numeric_set(e))) + " ";
  return o;
}
std::vector<Target> targets() {
  std::vector<Target> o;
  auto put = [&](const char* n, std::function<std::string(const In&)> f) { o.push_back({n, std::move(f)}); };
  put("print", [](const In& in) { std::string r; for (const auto& e : in.all()) r += str(e) + "\n"; return r; });
  put("tree", [](const In& in) { return tree(in.nest) + tree(in.opq) + tree(in.a) + tree(in.ratio); });
  put("build sums", [](const In& in) { S a = I(0), b = I(0); const std::vector<S> l{in.p1, in.rat, in.trig, in.cond, in.opq, in.v.x, in.v.y * 2, I(3), Q(1, 7)}; for (const S& e : l) a = a + e; for (auto it = l.rbegin(); it != l.rend(); ++it) b = *it + b; return str(a) + str(b) + (a.is_identical_to(b) ? "same" : "different"); });
  put("build products", [](const In& in) { S a = I(1), b = I(1); const std::vector<S> l{in.p1, in.rat, in.trig, in.cond, in.v.x, wf::pow(in.v.y, in.v.x), I(6), Q(5, 7), wf::sqrt(in.v.p)}; for (const S& e : l) a = a * e; for (auto it = l.rbegin(); it != l.rend(); ++it) b = *it * b; return str(a) + str(b) + (a.is_identical_to(b) ? "same" : "different"); });
  put("build powers", [](const In& in) { std::string r; for (const S& b : {in.v.x, in.p1, I(12), Q(-3, 4), in.v.p * in.v.x}) for (const S& e : {I(-3), Q(5, 2), in.v.y, Q(-1, 3)}) r += str(wf::pow(b, e)) + "\n"; return r; });
  put("build functions", [](const In& in) { std::string r; for (const Fn1& f : fn1()) for (const S& a : {in.v.x, -in.v.r, Q(1, 2), wf::constants::pi * Q(5, 6), in.v.p + in.v.n}) { try { r += str(f.build(a)); } catch (const std::exception& x) { r += x.what(); } r += "\n"; } return r; });
  put("relations", [](const In& in) { return str(in.v.r < in.v.s) + str(in.v.s <= in.v.r) + str(in.v.p < I(0)) + str(in.cond == in.trig) + str(in.trig == in.cond) + str(wf::iverson(in.v.r < in.p1)); });
  put("sets", sets);
  put("diff x", [](const In& in) { std::string r; for (const S& e : {in.p1, in.p2, in.rat, in.trig, in.cond, in.nest, in.ratio}) r += str(e.diff(in.v.x)) + "\n"; return r; });
  put("diff r 2", [](const In& in) { std::string r; for (const S& e : {in.p1, in.rat, in.trig, in.cond}) r += str(e.diff(in.v.r, 2)) + "\n"; return r; });
  put("diff opaque", [](const In& in) { return str(in.opq.diff(in.v.x)) + str(in.opq.diff(in.v.x, 2)) + str(fnv(in.o.g, {in.v.x * in.v.y, in.v.x}).diff(in.v.x)); });
  put("diff element", [](const In& in) { return str((in.o.field(1) * in.o.field(3) + wf::sin(in.o.field(1))).diff(in.o.field(1))); });
  put("jacobian", [](const In& in) { return str(wf::make_vector(in.p1, in.trig, in.cond).jacobian(wf::make_vector(in.v.x, in.v.y, in.v.r))); });
  put("subs variable", [](const In& in) { return str(in.nest.subs(in.v.x, in.v.y + 1)) + str(in.p2.subs(in.v.x, I(2))) + str(in.a.subs(in.v.x, in.v.p)); });
  put("subs product", [](const In& in) { return str(in.trig.subs(in.v.x * in.v.y, in.v.p)) + str(in.p1.subs(in.v.x + in.v.r, in.v.s)) + str(in.rat.subs(wf::pow(in.v.p, Q(1, 2)), in.v.n)); });
  put("subs list", [](const In& in) { const std::vector<wf::scalar_or_boolean_pair> l{std::make_tuple(in.v.x, in.v.y), std::make_tuple(in.v.y, in.v.x * 2), std::make_tuple(in.v.r < in.v.s, in.v.s < in.v.r)}; std::string r; for (bool f : {false, true}) r += str(wf::substitute(in.p1, l, f)) + str(wf::substitute(in.nest, l, f)) + "\n"; return r; });
  put("collect", [](const In& in) { return str(wf::collect(wf::distribute(in.p1), in.v.x)) + str(wf::collect(in.big, in.v.y)) + str(in.big.collect(in.v.x)); });
  put("collect many", [](const In& in) { const std::vector<S> l{in.v.x, in.v.y}; return str(wf::collect_many(in.big, l)) + str(wf::collect_many(wf::distribute(in.p2), l)); });
  put("distribute", [](const In& in) { return str(wf::distribute(in.p2)) + str(wf::distribute(in.p1 * in.ratio)) + str(wf::distribute(in.nest)); });
  put("evaluate", [](const In& in) { return str(wf::evaluate(in.ratio)) + str(wf::evaluate(wf::sin(I(2)) * wf::sqrt(I(3)) + wf::constants::pi)) + str(wf::evaluate(in.opq)); });
  auto var = [](std::size_t i) { return S{"v" + std::to_string(i), wf::number_set::unknown}; };
  put("cse", [var](const In& in) { auto [e, r] = wf::eliminate_subexpressions(in.nest + in.p1 * in.p1.diff(in.v.x), var, 2); return str(e) + replacements(r); });
  put("cse default names", [](const In& in) { auto [e, r] = wf::eliminate_subexpressions(in.trig * in.trig.diff(in.v.x), nullptr, 2); return str(e) + replacements(r); });
  put("cse matrix", [var](const In& in) { auto [e, r] = wf::eliminate_subexpressions(in.sq * in.sq, var, 2); return str(e) + replacements(r); });
  put("matrix algebra", [](const In& in) { return str(in.a * in.b) + str(in.b * in.a) + str(in.a.transposed() + in.b) + str(in.a * in.v.x) + str(wf::vectorize_matrix(in.sq)); });
  put("matrix stack", [](const In& in) { const std::vector<M> l{in.a, in.b.transposed()}; return str(wf::hstack(l)) + str(wf::vstack(l)) + str(wf::diagonal_stack(l)); });
  put("matrix conditional", [](const In& in) { return str(wf::where(in.v.r < in.v.s, in.a, in.b.transposed())); });
  put("lu", [](const In& in) { auto [p, l, u, q] = wf::factorize_full_piv_lu(in.sq); return str(p) + str(l) + str(u) + str(q); });
  put("determinant", [](const In& in) { return str(wf::determinant(in.sq)) + str(wf::determinant(in.sq.transposed())); });
  put("symbols", [](const In&) { return str(wf::make_matrix_of_symbols("q", 2, 2)) + str(wf::make_identity(2)); });
  put("quaternion", [](const In& in) { const auto q = wf::quaternion::from_name_prefix("q"); const auto p = wf::quaternion::from_rotation_vector(in.w, std::nullopt); return str((q * p).to_vector_wxyz()) + str(q.to_rotation_matrix()) + str(q.inverse().to_vector_xyzw()); });
  put("rotation vector", [](const In& in) { const auto q = wf::quaternion::from_rotation_vector(in.w, S{1e-6}); return str(q.to_vector_wxyz()) + str(q.to_rotation_vector(S{1e-6}, true)); });
  put("tangents", [](const In&) { const auto q = wf::quaternion::from_name_prefix("q"); return str(q.right_retract_derivative()) + str(q.right_local_coordinates_derivative()); });
  put("from matrix", [](const In& in) { const auto q = wf::quaternion::from_rotation_matrix(wf::quaternion::from_x_angle(in.v.r).to_rotation_matrix()); return str(q.to_vector_wxyz()); });
  put("so3 derivative", [](const In& in) { return str(wf::left_jacobian_of_so3(in.w, S{1e-6})); });
  put("unique variables", [](const In& in) { const S u = wf::make_unique_variable_symbol(wf::number_set::real), w = wf::make_unique_variable_symbol(wf::number_set::real); return str(w * u + wf::pow(u, in.v.x) - w) + str((u * w * in.v.x).diff(u)); });
  put("many unique variables", [](const In&) { S e = I(0); for (int i = 0; i < 9; ++i) e = e + wf::make_unique_variable_symbol(wf::number_set::real) * I(i + 1); return str(e); });
  // errors
  put("error shapes", [](const In& in) { return str(in.a * in.a); });
  put("error pole", [](const In& in) { return str(I(std::numeric_limits<int64_t>::max()) * I(3)); (void)in; });
  put("error index", [](const In& in) { return str(in.a(5, 0)); });
  put("error types", [](const In& in) { return str(in.o.ext_m.create_invocation({wf::any_expression{in.v.x}})); });
  put("error codegen", [](const In& in) { return generate(in.t, [&](FB& b) { const S x = b.f("x"); b.ret(x * wf::constants::imaginary_unit + fnv(in.o.f, {x})); }); });
  put("error free variable", [](const In& in) { return generate(in.t, [&](FB& b) { const S x = b.f("x"); b.ret(x * in.v.y); }); });
  // code generation
  const auto fam = type_family();
  for (const char* k : {"mat_mul", "outer_each", "outer_pass", "inner_cond", "ext_chain", "ext_m_expr", "point_opt_twice"})
    for (const auto& c : fam)
      if (c.key == k) o.push_back({std::string("generate ") + k, [body = c.body](const In& in) { return generate(in.t, body); }});
  put("generate sums", [](const In& in) { return generate(in.t, [](FB& b) { Args q(b); S e = I(0); for (int i = 0; i < 9; ++i) e = e + wf::pow(q.v.x, I(i % 3)) * wf::pow(q.v.y, I(i / 3)) * (i % 2 ? q.v.z : q.v.r) * I(i - 4 ? i - 4 : 1); b.out("o0", e); b.out("o1", e * q.v.x); b.ret(e + q.v.y); }); });
  put("generate conditionals", [](const In& in) { return generate(in.t, [](FB& b) { Args q(b); const S u = wf::where(q.v.x < q.v.y, wf::sin(q.v.x), q.v.y * q.v.z), w = wf::where(q.v.z < q.v.x, u * q.v.x, wf::where(q.v.x < q.v.y, u, wf::cos(q.v.z))); b.out("o0", u * w, true); b.out("o1", w, true); b.ret(wf::where(q.k < q.l, u, w) + u); }); });
  put("generate jacobian", [](const In& in) { return generate(in.t, [](FB& b) { const M v = b.m("v", 3, 1); const auto q = wf::quaternion::from_rotation_vector(v, S{1e-6}); b.out("r", wf::type_variant{wf::matrix_type(3, 3)}, wf::any_expression{q.to_rotation_matrix()}); b.out("d", wf::type_variant{wf::matrix_type(4, 3)}, wf::any_expression{q.jacobian(v)}, true); }, 31); });
  ties([&](const std::string& key, const Body& body) {
    if (key == "T1_5" || key == "T3_4" || key == "T7_6") o.push_back({"generate " + key, [body](const In& in) { return generate(in.t, body, 19); }});
  });
  put("generate cse names", [](const In& in) { return generate(in.t, [](FB& b) { const S v = b.f("v0"), w = b.f("v1"), r = b.f("res"); b.ret(wf::sin(v * w) * wf::cos(v * w) + r * wf::exp(v * w)); }); });
  return o;
}
std::string outcome(const Target& t, const In& in) {
  try {
    return normalise(t.run(in));
  } catch (const std::exception& x) {
    return std::string("raises: ") + x.what();
  }
}

// Runs f in a forked child and returns what it wrote; ok is false if the child crashed.
std::string in_child(const std::function<std::string()>& f, bool& ok) {
  int fd[2];
  if (pipe(fd)) return {};
  const pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    signal(SIGSEGV, SIG_DFL);
    const std::string s = f();
    std::size_t n = 0;
    while (n < s.size()) {
      const auto k = write(fd[1], s.data() + n, s.size() - n);
      if (k <= 0) break;
      n += static_cast<std::size_t>(k);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char buf[1 << 16];
  for (;;) {
    const auto k = read(fd[0], buf, sizeof buf);
    if (k <= 0) break;
    s.append(buf, static_cast<std::size_t>(k));
  }
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (!ok) s = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
  return s;
}
std::string first_difference(const std::string& a, const std::string& b) {
  std::size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  const std::size_t s = i < 60 ? 0 : i - 60;
  return "expected ..." + a.substr(s, 160) + "... got ..." + b.substr(s, 160) + "...";
}
}  // namespace

int main(int argc, char** argv) {
  if (argc == 3 && std::string(argv[1]) == "--baseline") {  // the results, in a new image of the process
    const auto ts = targets();
    for (const Target& t : ts) {
      bool ok = true;
      const std::string s = in_child([&] { In in; return outcome(t, in); }, ok) + "\x1f";
      fwrite(s.data(), 1, s.size(), stdout);
    }
    return 0;
  }
  return ex::explorer_main(argc, argv, [](ex::Explorer& e) {
    const auto ts = targets();
    const std::size_t n = ts.size();
    // Every target alone, in a new process, with the allocator of the system.
    std::vector<std::string> base(n);
    for (std::size_t i = 0; i < n; ++i) {
      bool ok = true;
      base[i] = in_child([&] { In in; return outcome(ts[i], in); }, ok);
      if (!ok) e.violation(ts[i].name, "ends the process: " + base[i]);
      if (getenv("C15_SHOW")) printf("== %s\n%s\n", ts[i].name.c_str(), base[i].c_str());
      e.count["bytes_of_reference_text"] += base[i].size();
    }
    // The same in other images of the process (addresses of code and data, stack, environment).
    for (int image = 0; image < (e.thorough ? 24 : 8); ++image) {
      if (!e.next()) continue;
      e.sample([&] { return "process image " + std::to_string(image); });
      e.state(ex::Explorer::mix(0x1000u + static_cast<unsigned>(image)));
      bool ok = true;
      const std::string r = in_child(
          [&] {
            std::string exe(4096, 0);
            exe.resize(static_cast<std::size_t>(std::max<ssize_t>(0, readlink("/proc/self/exe", exe.data(), exe.size()))));
            std::string s;
            const std::string cmd = "PAD=" + std::string(static_cast<std::size_t>(image) * 37, 'x') + " '" + exe + "' --baseline x";
            if (FILE* f = popen(cmd.c_str(), "r")) {
              char buf[4096];
              for (std::size_t k; (k = fread(buf, 1, sizeof buf, f)) > 0;) s.append(buf, k);
              pclose(f);
            }
            return s;
          },
          ok);
      ++e.count["transitions_decided"];
      std::size_t a = 0;
      for (std::size_t i = 0; i < n; ++i) {
        const std::size_t b = r.find('\x1f', a);
        if (b == std::string::npos) {
          e.violation("process", "a new process ends early");
          break;
        }
        if (r.compare(a, b - a, base[i])) e.violation(ts[i].name, "differs between two processes: " + first_difference(base[i], r.substr(a, b - a)));
        a = b + 1;
      }
    }
    // Histories: the empty one, every operation, every ordered pair (thorough: triples that end in a code generation or start with an error).
    auto explore = [&](const std::vector<std::size_t>& hist, int policy) {
      if (!e.next()) return;
      auto describe = [&] {
        std::string s = "allocator " + alloc::name(policy) + "; history:";
        for (std::size_t k : hist) s += " [" + ts[k].name + "]";
        return s;
      };
      e.sample(describe);
      uint64_t sh = static_cast<uint64_t>(policy);
      for (std::size_t k : hist) sh = ex::Explorer::mix(sh * 131 + k + 1);
      e.state(sh);
      bool ok = true;
      const uint64_t id = e.id();
      const std::string r = in_child(
          [&] {
            alloc::start(policy);
            std::string rep;
            In in;
            std::vector<std::size_t> hsh;
            std::vector<std::string> txt;
            std::vector<wf::any_expression> keep = in.all();
            for (const auto& q : keep) txt.push_back(str(q)), hsh.push_back(wf::hash_struct<wf::any_expression>{}(q));
            for (std::size_t k : hist) (void)outcome(ts[k], in);
            uint64_t probes = 0;
            auto probe = [&](std::size_t k, const char* how, const In& i) {
              const std::string s = outcome(ts[k], i);
              ++probes;
              if (s != base[k]) rep += ts[k].name + "\t" + how + ": " + first_difference(base[k], s) + "\x1f";
            };
            for (std::size_t q = 0; q < n; ++q) {
              const std::size_t k = id % 3 == 0 ? q : id % 3 == 1 ? n - 1 - q : (q + id / 3) % n;
              probe(k, "on shared inputs", in);
            }
            {
              const In fresh;
              const std::size_t k = hist.empty() ? id % n : hist.back();
              probe(k, "again, on inputs built anew", fresh);
              const auto now = in.all(), other = fresh.all();
              for (std::size_t q = 0; q < keep.size(); ++q) {
                if (str(keep[q]) != txt[q] || wf::hash_struct<wf::any_expression>{}(keep[q]) != hsh[q]) rep += "inputs\tinput modified: " + txt[q] + " became " + str(keep[q]) + "\x1f";
                if (!wf::is_identical_struct<wf::any_expression>{}(now[q], other[q])) rep += "inputs\tinput differs from one built anew: " + txt[q] + "\x1f";
              }
            }
            return "P" + std::to_string(probes) + "\x1f" + rep;
          },
          ok);
      if (!ok || r.empty() || r[0] != 'P') {
        e.violation("process", describe() + " ends the process: " + r);
        return;
      }
      std::size_t at = r.find('\x1f');
      e.count["probes"] += strtoull(r.c_str() + 1, nullptr, 10);
      ++e.count["transitions_decided"];
      while (at + 1 < r.size()) {
        const std::size_t next = r.find('\x1f', at + 1), tab = r.find('\t', at + 1);
        e.violation(r.substr(at + 1, tab - at - 1), r.substr(tab + 1, next - tab - 1) + " ; " + describe());
        at = next;
      }
    };
    for (int p = 0; p < alloc::n_policies; ++p) {
      explore({}, p);
      for (std::size_t i = 0; i < n; ++i) explore({i}, p);
    }
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j) {
        if (e.thorough) {
          for (int p = 0; p < alloc::n_policies; ++p) explore({i, j}, p);
          explore({i, j, i}, static_cast<int>((i + j) % alloc::n_policies));
        } else {
          explore({i, j}, static_cast<int>((i * 5 + j) % alloc::n_policies));
          explore({i, j}, static_cast<int>((i * 5 + j + 3) % alloc::n_policies));
        }
      }
    // Every function of the code generation families, under every allocator, forwards and backwards.
    const Types types;
    std::vector<std::pair<std::string, Body>> batch;
    const std::size_t size = 48;
    int npolicies = alloc::n_policies;
    auto flush = [&] {
      if (batch.empty()) return;
      auto texts = [&](int policy, bool backwards) {
        alloc::start(policy);
        std::vector<std::string> t(batch.size());
        for (std::size_t q = 0; q < batch.size(); ++q) {
          const std::size_t k = backwards ? batch.size() - 1 - q : q;
          try {
            t[k] = normalise(generate(types, batch[k].second, policy == alloc::reusing || policy == alloc::system_ ? 31 : 3));
          } catch (const std::exception& x) {
            t[k] = x.what();
          }
        }
        std::string r;
        for (const auto& s : t) r += s + "\x1f";
        return r;
      };
      auto split = [](const std::string& s) {
        std::vector<std::string> o;
        for (std::size_t a = 0, b; (b = s.find('\x1f', a)) != std::string::npos; a = b + 1) o.push_back(s.substr(a, b - a));
        return o;
      };
      std::map<bool, std::vector<std::string>> ref;  // full or short text
      for (int p = 0; p < npolicies; ++p) {
        if (!e.next()) continue;
        const std::string d = std::string("functions from '") + batch[0].first + "', allocator " + alloc::name(p);
        e.sample([&] { return d; });
        e.state(ex::Explorer::mix(e.id()));
        const bool full = p == alloc::reusing || p == alloc::system_;
        bool ok = true;
        if (!ref.count(full)) {
          ref[full] = split(in_child([&] { const std::string r = texts(alloc::system_, false); if (full) return r; std::string q; for (const auto& [k, b] : batch) { try { q += normalise(generate(types, b, 3)); } catch (const std::exception& x) { q += x.what(); } q += "\x1f"; } return q; }, ok));
          if (!ok) e.violation("process", d + " ends the process");
        }
        const auto got = split(in_child([&] { return texts(p, true); }, ok));
        const auto& want = ref[full];
        if (!ok || got.size() != batch.size() || want.size() != batch.size()) {
          e.violation("process", d + " ends the process");
          continue;
        }
        ++e.count["transitions_decided"];
        for (std::size_t q = 0; q < batch.size(); ++q) {
          ++e.count["functions_compared"];
          if (got[q] != want[q]) e.violation(batch[q].first, d + ": " + first_difference(want[q], got[q]));
        }
      }
      batch.clear();
    };
    std::size_t i = 0;
    all_functions(e.thorough, [&](const std::string& key, const Body& body) {
      const std::size_t me = i++;
      if (!e.thorough && key[0] != 'C' && me % 4) return;
      batch.emplace_back(key, body);
      if (batch.size() == size) flush();
    });
    flush();
    // Functions with many ties between conditions, pairs of operands and factors, under more allocators.
    npolicies = e.thorough ? 200 : 60;
    ties([&](const std::string& key, const Body& body) {
      batch.emplace_back(key, body);
      if (batch.size() == size) flush();
    });
    flush();
  });
}
