// C18: the plain-text form of an expression, read back by an independent reader with ordinary
// precedence rules, denotes the value of the expression.
#include <cstring>

#include "pool.h"
#include "wf/expression.h"
using namespace h;
using wf::boolean_expr;
using wf::index_t;
using M = wf::matrix_expr;

namespace {
using Any = std::variant<V, ref::B, std::vector<std::vector<V>>, std::string>;

// ---- the reader -------------------------------------------------------------------------------
struct Node {
  std::string kind, text;  // num name call matrix index field neg bin rel
  std::vector<std::shared_ptr<Node>> kids;
};
using NP = std::shared_ptr<Node>;
NP mk(std::string kind, std::string text, std::vector<NP> kids = {}) {
  return std::make_shared<Node>(Node{std::move(kind), std::move(text), std::move(kids)});
}
struct Unreadable : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Reader {
  std::vector<std::string> t;
  std::size_t p{0};
  explicit Reader(const std::string& s) {
    std::size_t i = 0;
    auto digit = [&](std::size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
    auto word = [&](std::size_t k) { return k < s.size() && (isalnum(static_cast<unsigned char>(s[k])) || s[k] == '_' || s[k] == '$'); };
    while (i < s.size()) {
      const std::size_t b = i;
      if (s[i] == ' ' || s[i] == '\n') { ++i; continue; }
      if (digit(i) || (s[i] == '.' && digit(i + 1))) {
        while (digit(i)) ++i;
        if (i < s.size() && s[i] == '.') for (++i; digit(i);) ++i;
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E') && (digit(i + 1) || ((s[i + 1] == '-' || s[i + 1] == '+') && digit(i + 2))))
          for (i += 2; digit(i);) ++i;
        if (word(i)) throw Unreadable("digits run into a name");
      } else if (word(i)) {
        while (word(i)) ++i;
      } else if (s.compare(i, 2, "**") == 0 || s.compare(i, 2, "<=") == 0 || s.compare(i, 2, "==") == 0) {
        i += 2;
      } else if (strchr("+-*/()[],.<", s[i])) {
        ++i;
      } else {
        throw Unreadable("character");
      }
      t.push_back(s.substr(b, i - b));
    }
  }
  const std::string& peek() const {
    static const std::string end;
    return p < t.size() ? t[p] : end;
  }
  bool take(const char* s) {
    if (peek() == s) return ++p, true;
    return false;
  }
  void want(const char* s) {
    if (!take(s)) throw Unreadable(std::string("expected ") + s + " found " + peek());
  }
  NP all() {
    NP r = expr();
    if (p != t.size()) throw Unreadable("trailing text " + peek());
    return r;
  }
  NP expr() {
    NP a = sum();
    if (peek() == "<" || peek() == "<=" || peek() == "==") {
      const std::string o = t[p++];
      a = mk("rel", o, {a, sum()});
      if (peek() == "<" || peek() == "<=" || peek() == "==") throw Unreadable("chained comparison");
    }
    return a;
  }
  NP sum() {
    NP a = product();
    while (peek() == "+" || peek() == "-") {
      const std::string o = t[p++];
      a = mk("bin", o, {a, product()});
    }
    return a;
  }
  NP product() {
    NP a = unary();
    while (peek() == "*" || peek() == "/") {
      const std::string o = t[p++];
      a = mk("bin", o, {a, unary()});
    }
    return a;
  }
  NP unary() {
    if (take("-")) return mk("neg", "", {unary()});
    return power();
  }
  NP power() {
    NP a = postfix();
    if (take("**")) return mk("bin", "**", {a, unary()});
    return a;
  }
  NP postfix() {
    NP a = atom();
    while (peek() == "." || peek() == "[") {
      if (take(".")) {
        a = mk("field", t.at(p++), {a});
      } else {
        ++p;
        const std::string r = t.at(p++);
        want(",");
        const std::string c = t.at(p++);
        want("]");
        a = mk("index", "[" + r + ", " + c + "]", {a});
      }
    }
    return a;
  }
  NP atom() {
    const std::string w = peek();
    if (w.empty()) throw Unreadable("end of text");
    if (take("(")) {
      NP a = expr();
      want(")");
      return mk("group", "", {a});
    }
    if (take("[")) {
      NP m = mk("matrix", "");
      if (take("]")) return m;
      do {
        want("[");
        NP row = mk("row", "");
        do row->kids.push_back(expr());
        while (take(","));
        want("]");
        m->kids.push_back(row);
      } while (take(","));
      want("]");
      return m;
    }
    ++p;
    if (isdigit(static_cast<unsigned char>(w[0])) || w[0] == '.') return mk("num", w);
    if (!isalnum(static_cast<unsigned char>(w[0])) && w[0] != '_' && w[0] != '$') throw Unreadable("unexpected " + w);
    if (take("(")) {
      NP f = mk("call", w);
      if (take(")")) return f;
      do f->kids.push_back(expr());
      while (take(","));
      want(")");
      return f;
    }
    return mk("name", w);
  }
};

// ---- values -----------------------------------------------------------------------------------
// The value of a leaf at a point is a function of its name.
constexpr std::size_t NPTS = 8;
V leaf_value(const std::string& name, std::size_t i) {
  uint64_t x = ref::opaque(name, {}).v.real() * 1e9;
  x = ex::Explorer::mix(x * 131 + i);
  auto u = [&] { x = ex::Explorer::mix(x + 77); return static_cast<double>(x % 4096) / 1024.0 - 2.0 + 1.0 / 8192; };
  const double re = u(), im = u();
  if (i < 5) return V::ok(C{re, 0});
  if (i < 7) return V::ok(C{re, im});
  return V::ok(C{re > 0 ? re : 0.5 - re, 0});
}
V from_number(const std::string& s) {
  if (s.find_first_of(".eE") == std::string::npos) {
    errno = 0;
    const long long n = strtoll(s.c_str(), nullptr, 10);
    const double d = errno ? strtod(s.c_str(), nullptr) : static_cast<double>(n);
    return V::ok(d, std::abs(d) > 9e15 ? ref::EPS * std::abs(d) : 0);
  }
  const double d = strtod(s.c_str(), nullptr);
  double ip;
  const bool exact = std::abs(d) < 1e9 && std::modf(d * 1048576.0, &ip) == 0;
  return V::ok(d, exact ? 0 : 4 * ref::EPS * std::abs(d));
}
struct Functions {
  std::map<std::string, wf::built_in_function> f;
  Functions() {
    // Names as documented for the printed form.
    using F = wf::built_in_function;
    f = {{"cos", F::cos}, {"sin", F::sin}, {"tan", F::tan}, {"acos", F::arccos}, {"asin", F::arcsin}, {"atan", F::arctan}, {"cosh", F::cosh}, {"sinh", F::sinh}, {"tanh", F::tanh}, {"acosh", F::arccosh}, {"asinh", F::arcsinh}, {"atanh", F::arctanh}, {"log", F::log}, {"exp", F::exp}, {"abs", F::abs}, {"sign", F::signum}, {"floor", F::floor}};
  }
};
struct Reading {
  std::size_t i;
  std::string path(const Node& a) const {
    if (a.kind == "name") return a.text;
    if (a.kind == "field") return path(*a.kids[0]) + "." + a.text;
    if (a.kind == "index") return path(*a.kids[0]) + a.text;
    throw Unreadable("access of something that is not a name");
  }
  static bool on_call(const Node& a) { return a.kind == "call" || ((a.kind == "field" || a.kind == "index") && on_call(*a.kids[0])); }
  std::string call_path(const Node& a) const {
    if (a.kind == "call") return "";
    return call_path(*a.kids[0]) + (a.kind == "field" ? "." + a.text : a.text);
  }
  const Node& call_of(const Node& a) const { return a.kind == "call" ? a : call_of(*a.kids[0]); }
  V call(const Node& a, const std::string& access) const {
    std::string tag = a.text + access + "(";
    std::vector<V> args;
    for (const NP& k : a.kids) {
      if (k->kind == "matrix") {
        tag += "m" + std::to_string(k->kids.size()) + ",";
        for (const NP& r : k->kids)
          for (const NP& x : r->kids) args.push_back(value(*x));
      } else if (k->kind == "name" && k->text.rfind("obj", 0) == 0) {
        tag += k->text + ",";
      } else if (k->kind == "call" && k->text.rfind("ext_c", 0) == 0) {
        args.push_back(call(*k, ""));
        tag += "c,";
      } else if (k->kind == "rel" || k->text == "True" || k->text == "False") {
        const ref::B b = truth(*k);
        args.push_back(b.st == ref::OK ? V::ok(b.v) : V::bad(b.st));
        tag += "b,";
      } else {
        args.push_back(value(*k));
        tag += "s,";
      }
    }
    return ref::opaque(tag, args);
  }
  ref::B truth(const Node& a) const {
    if (a.kind == "group") return truth(*a.kids[0]);
    if (a.kind == "name" && a.text == "True") return {true, ref::OK};
    if (a.kind == "name" && a.text == "False") return {false, ref::OK};
    if (a.kind != "rel") throw Unreadable("condition expected");
    using O = wf::relational_operation;
    return ref::compare(a.text == "<" ? O::less_than : a.text == "<=" ? O::less_than_or_equal : O::equal, value(*a.kids[0]), value(*a.kids[1]));
  }
  V value(const Node& a) const {
    static const Functions table;
    if (a.kind == "group") return value(*a.kids[0]);
    if (a.kind == "num") return from_number(a.text);
    if (a.kind == "neg") return ref::neg(value(*a.kids[0]));
    if (a.kind == "bin") {
      const V x = value(*a.kids[0]), y = value(*a.kids[1]);
      if (a.text == "+") return ref::add(x, y);
      if (a.text == "-") return ref::add(x, ref::neg(y));
      if (a.text == "*") return ref::mul(x, y);
      if (a.text == "/") return ref::mul(x, ref::inv(y));
      return ref::pow_(x, y);
    }
    if (a.kind == "call") {
      auto arg = [&](std::size_t k) { return value(*a.kids.at(k)); };
      const std::size_t n = a.kids.size();
      if (auto it = table.f.find(a.text); it != table.f.end() && n == 1) return ref::trig(it->second, arg(0));
      if (a.text == "atan2" && n == 2) return ref::atan2_(arg(0), arg(1));
      if (a.text == "where" && n == 3) {
        const ref::B b = truth(*a.kids[0]);
        return b.st != ref::OK ? V::bad(b.st) : b.v ? arg(1) : arg(2);
      }
      if (a.text == "iverson" && n == 1) {
        const ref::B b = truth(*a.kids[0]);
        return b.st != ref::OK ? V::bad(b.st) : V::ok(b.v);
      }
      return call(a, "");
    }
    if (a.kind == "name") {
      if (a.text == "pi") return V::ok(M_PI, ref::EPS * 3);
      if (a.text == "E") return V::ok(M_E, ref::EPS * 3);
      if (a.text == "I") return V::ok(C{0, 1});
      if (a.text == "zoo") return V::bad(ref::POLE);
      if (a.text == "nan") return V::bad(ref::UNDEF);
      return leaf_value(a.text, i);
    }
    if (a.kind == "field" || a.kind == "index") {
      if (on_call(a)) return call(call_of(a), call_path(a));
      return leaf_value(path(a), i);
    }
    throw Unreadable("scalar expected, found " + a.kind + " " + a.text);
  }
};

// ---- the meaning of expressions ---------------------------------------------------------------
void access_names(const wf::type_variant& t, const std::string& prefix, std::vector<std::string>& out) {
  std::visit(
      [&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, wf::scalar_type>) {
          out.push_back(prefix);
        } else if constexpr (std::is_same_v<T, wf::matrix_type>) {
          for (index_t r = 0; r < x.rows(); ++r)
            for (index_t c = 0; c < x.cols(); ++c) out.push_back(prefix + "[" + std::to_string(r) + ", " + std::to_string(c) + "]");
        } else {
          for (const auto& f : x.fields()) access_names(f.type(), prefix + "." + f.name(), out);
        }
      },
      t);
}
struct Meaning {
  std::size_t n{NPTS};
  mutable std::unordered_map<S, Vec, ref::Hash, ref::Eq> memo;
  template <typename F>
  Vec each(F&& f) const {
    Vec r(n);
    for (std::size_t i = 0; i < n; ++i) r[i] = f(i);
    return r;
  }
  Vec leaf(const std::string& name) const {
    return each([&](std::size_t i) { return leaf_value(name, i); });
  }
  std::vector<ref::B> eval(const boolean_expr& b) const {
    std::vector<ref::B> o(n);
    wf::visit(b, [&](const auto& x) {
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, wf::boolean_constant>) {
        for (auto& q : o) q = {x.value(), ref::OK};
      } else {
        const Vec l = eval(x.left()), r = eval(x.right());
        for (std::size_t i = 0; i < n; ++i) o[i] = ref::compare(x.operation(), l[i], r[i]);
      }
    });
    return o;
  }
  Vec eval(const S& e) const {
    if (auto it = memo.find(e); it != memo.end()) return it->second;
    Vec r = wf::visit(e, [&](const auto& x) { return node(x); });
    if (memo.size() > 300000) memo.clear();
    memo.emplace(e, r);
    return r;
  }
  Vec opaque(const std::string& tag, const std::vector<Vec>& a) const {
    return each([&](std::size_t i) {
      std::vector<V> args;
      for (const Vec& k : a) args.push_back(k[i]);
      return ref::opaque(tag, args);
    });
  }
  Vec external(const wf::external_function_invocation& x, const std::string& access) const {
    std::string tag = x.function().name() + access + "(";
    std::vector<Vec> args;
    for (const wf::any_expression& c : x.children()) {
      std::visit(
          [&](const auto& k) {
            using T = std::decay_t<decltype(k)>;
            if constexpr (std::is_same_v<T, S>) {
              args.push_back(eval(k)), tag += "s,";
            } else if constexpr (std::is_same_v<T, M>) {
              for (const S& q : k.to_vector()) args.push_back(eval(q));
              tag += "m" + std::to_string(k.rows()) + ",";
            } else if constexpr (std::is_same_v<T, boolean_expr>) {
              const auto b = eval(k);
              args.push_back(each([&](std::size_t i) { return b[i].st == ref::OK ? V::ok(b[i].v) : V::bad(b[i].st); })), tag += "b,";
            } else {
              wf::visit(k, [&](const auto& c2) {
                using U = std::decay_t<decltype(c2)>;
                if constexpr (std::is_same_v<U, wf::custom_type_argument>) tag += c2.argument_name() + ",";
                else if constexpr (std::is_same_v<U, wf::external_function_invocation>) args.push_back(external(c2, "")), tag += "c,";
                else throw std::runtime_error("aggregates made of expressions are printed in abbreviated form");
              });
            }
          },
          c);
    }
    return opaque(tag, args);
  }
  template <typename T>
  Vec node(const T& x) const {
    using namespace wf;
    if constexpr (std::is_same_v<T, addition> || std::is_same_v<T, multiplication>) {
      constexpr bool mul = std::is_same_v<T, multiplication>;
      Vec r(n, V::ok(mul ? 1 : 0));
      for (const S& c : x.children()) {
        const Vec q = eval(c);
        for (std::size_t i = 0; i < n; ++i) r[i] = mul ? ref::mul(r[i], q[i]) : ref::add(r[i], q[i]);
      }
      return r;
    } else if constexpr (std::is_same_v<T, power>) {
      const Vec a = eval(x.base()), b = eval(x.exponent());
      return each([&](std::size_t i) { return ref::pow_(a[i], b[i]); });
    } else if constexpr (std::is_same_v<T, integer_constant>) {
      return Vec(n, from_number(std::to_string(x.value().value())));
    } else if constexpr (std::is_same_v<T, rational_constant>) {
      return Vec(n, m_div(from_number(std::to_string(x.numerator().value())), from_number(std::to_string(x.denominator().value()))));
    } else if constexpr (std::is_same_v<T, float_constant>) {
      const double d = x.value();
      double ip;
      const bool exact = std::abs(d) < 1e9 && std::modf(d * 1048576.0, &ip) == 0;
      return Vec(n, V::ok(d, exact ? 0 : 4 * ref::EPS * std::abs(d)));
    } else if constexpr (std::is_same_v<T, symbolic_constant>) {
      return Vec(n, x.name() == symbolic_constant_enum::pi ? V::ok(M_PI, ref::EPS * 3) : V::ok(M_E, ref::EPS * 3));
    } else if constexpr (std::is_same_v<T, imaginary_unit>) {
      return Vec(n, V::ok(C{0, 1}));
    } else if constexpr (std::is_same_v<T, complex_infinity>) {
      return Vec(n, V::bad(ref::POLE));
    } else if constexpr (std::is_same_v<T, undefined>) {
      return Vec(n, V::bad(ref::UNDEF));
    } else if constexpr (std::is_same_v<T, variable>) {
      return leaf(x.name());
    } else if constexpr (std::is_same_v<T, unique_variable>) {
      return leaf("$u_" + std::to_string(x.index()));
    } else if constexpr (std::is_same_v<T, function_argument_variable>) {
      std::vector<std::string> names;
      access_names(x.argument_type(), std::string(x.argument_name()), names);
      return leaf(names.at(x.element_index()));
    } else if constexpr (std::is_same_v<T, built_in_function_invocation>) {
      std::vector<Vec> a;
      for (const S& c : x.children()) a.push_back(eval(c));
      if (x.enum_value() == built_in_function::arctan2) return each([&](std::size_t i) { return ref::atan2_(a.at(0)[i], a.at(1)[i]); });
      return each([&](std::size_t i) { return ref::trig(x.enum_value(), a.at(0)[i]); });
    } else if constexpr (std::is_same_v<T, conditional>) {
      const auto c = eval(x.condition());
      const Vec a = eval(x.if_branch()), b = eval(x.else_branch());
      return each([&](std::size_t i) { return c[i].st != ref::OK ? V::bad(c[i].st) : c[i].v ? a[i] : b[i]; });
    } else if constexpr (std::is_same_v<T, iverson_bracket>) {
      const auto c = eval(x.arg());
      return each([&](std::size_t i) { return c[i].st != ref::OK ? V::bad(c[i].st) : V::ok(c[i].v); });
    } else if constexpr (std::is_same_v<T, unevaluated>) {
      return eval(x.contents());
    } else if constexpr (std::is_same_v<T, stop_derivative>) {
      return opaque("StopDerivative(s,", {eval(x.arg())});
    } else if constexpr (std::is_same_v<T, derivative>) {
      if (x.order() == 1) return opaque("Derivative(s,s,", {eval(x.differentiand()), eval(x.argument())});
      return opaque("Derivative(s,s,s,", {eval(x.differentiand()), eval(x.argument()), Vec(n, V::ok(x.order()))});
    } else if constexpr (std::is_same_v<T, substitution>) {
      return opaque("Subs(s,s,s,", {eval(x.input()), eval(x.target()), eval(x.replacement())});
    } else if constexpr (std::is_same_v<T, symbolic_function_invocation>) {
      std::string tag = x.function().name() + "(";
      std::vector<Vec> a;
      for (const S& c : x.children()) a.push_back(eval(c)), tag += "s,";
      return opaque(tag, a);
    } else if constexpr (std::is_same_v<T, compound_expression_element>) {
      return wf::visit(x.provenance(), [&](const auto& q) -> Vec {
        using U = std::decay_t<decltype(q)>;
        if constexpr (std::is_same_v<U, custom_type_argument>) {
          std::vector<std::string> names;
          access_names(q.type(), std::string(q.argument_name()), names);
          return leaf(names.at(x.index()));
        } else if constexpr (std::is_same_v<U, external_function_invocation>) {
          std::vector<std::string> names;
          std::visit([&](const auto& t) { access_names(t, "", names); }, q.function().return_type());
          return external(q, names.at(x.index()));
        } else {
          return eval(q.at(x.index()));
        }
      });
    } else {
      static_assert(sizeof(T) == 0, "every kind of node has a meaning");
    }
  }
};

struct Run {
  ex::Explorer& e;
  Meaning m;
  void same(const std::string& text, const Vec& want, const std::function<V(const Reading&)>& read, uint64_t& decided) {
    for (std::size_t i = 0; i < want.size(); ++i) {
      const V got = read(Reading{i});
      if (want[i].st == ref::NOISE || got.st == ref::NOISE) continue;
      if (want[i].st != ref::OK || got.st != ref::OK) {
        if (want[i].st == got.st) ++decided;
        else if ((want[i].st == ref::UNDEF || want[i].st == ref::POLE) != (got.st == ref::UNDEF || got.st == ref::POLE) && want[i].st != ref::HUGE_ && got.st != ref::HUGE_)
          e.violation(text, "expected " + ref::show(want[i]) + " read " + ref::show(got));
        continue;
      }
      ++decided;
      if (ref::compare_values(want[i], got) == Cmp::differ) {
        e.violation(text, "printed: " + text + " ; point " + std::to_string(i) + " expected " + ref::show(want[i]) + " read " + ref::show(got));
        return;
      }
    }
  }
  void report(uint64_t decided) {
    e.count["values_compared"] += decided;
    if (decided) ++e.count["transitions_decided"];
  }
  void scalar(const std::function<S()>& build) {
    if (!e.next()) return;
    S x = I(0);
    try {
      x = build();
    } catch (const std::exception&) {
      ++e.count["not_constructible"];
      return;
    }
    print(x);
  }
  void print(const S& x) {
    const std::string text = x.to_string();
    e.state(ex::Explorer::mix(std::hash<std::string>{}(text)));
    e.sample([&] { return text; });
    uint64_t decided = 0;
    try {
      const NP a = Reader(text).all();
      same(text, m.eval(x), [&](const Reading& r) { return r.value(*a); }, decided);
    } catch (const Unreadable& u) {
      e.violation(text, std::string("cannot be read: ") + u.what() + " : " + text);
    }
    report(decided);
  }
  void truth(const std::function<boolean_expr()>& build) {
    if (!e.next()) return;
    try {
      const boolean_expr b = build();
      const std::string text = b.to_string();
      e.state(ex::Explorer::mix(std::hash<std::string>{}(text)));
      e.sample([&] { return text; });
      const NP a = Reader(text).all();
      const auto want = m.eval(b);
      uint64_t decided = 0;
      for (std::size_t i = 0; i < NPTS; ++i) {
        const ref::B got = Reading{i}.truth(*a);
        if (want[i].st != ref::OK || got.st != ref::OK) continue;
        ++decided;
        if (got.v != want[i].v) e.violation(text, "condition: point " + std::to_string(i));
      }
      report(decided);
    } catch (const Unreadable& u) {
      e.violation("condition", u.what());
    } catch (const std::exception&) {
      ++e.count["not_constructible"];
    }
  }
  void matrix(index_t rows, index_t cols, const std::vector<S>& el) {
    if (!e.next()) return;
    const M x = M::create(rows, cols, el);
    const std::string text = x.to_string();
    e.state(ex::Explorer::mix(std::hash<std::string>{}(text)));
    e.sample([&] { return text; });
    uint64_t decided = 0;
    try {
      const NP a = Reader(text).all();
      if (a->kind != "matrix") throw Unreadable("not a matrix");
      if (rows * cols == 0) {
        if (!a->kids.empty()) e.violation(text, "not empty");
        ++decided;
      } else {
        if (a->kids.size() != static_cast<std::size_t>(rows)) e.violation(text, "rows");
        for (index_t r = 0; r < rows && r < static_cast<index_t>(a->kids.size()); ++r) {
          const auto& row = a->kids[static_cast<std::size_t>(r)]->kids;
          if (row.size() != static_cast<std::size_t>(cols)) {
            e.violation(text, "columns");
            break;
          }
          for (index_t c = 0; c < cols; ++c)
            same(text, m.eval(el[static_cast<std::size_t>(r * cols + c)]), [&](const Reading& q) { return q.value(*row[static_cast<std::size_t>(c)]); }, decided);
        }
      }
    } catch (const Unreadable& u) {
      e.violation(text, u.what());
    }
    report(decided);
  }
};

void body(ex::Explorer& e) {
  Run run{e};
  const Vars v;
  const Opaque o;
  const S im = wf::constants::imaginary_unit;
  using wf::numeric_primitive_type;
  const wf::scalar_type flt(numeric_primitive_type::floating_point), itg(numeric_primitive_type::integral);

  // Leaves of every kind.
  std::vector<S> leaves{v.x, v.y, v.z, v.r, v.s, v.p, v.n, S("_a"), S("alpha_1"), S("Point"), S("x0", wf::number_set::real)};
  {
    const wf::argument am{"am", wf::matrix_type(2, 3), wf::argument_direction::input, 0}, ak{"ak", flt, wf::argument_direction::input, 1};
    std::vector<wf::type_variant> types{flt, itg, wf::matrix_type(1, 1), wf::matrix_type(2, 3), wf::matrix_type(3, 1), wf::matrix_type(1, 4), wf::type_variant{o.inner}, wf::type_variant{o.outer}};
    for (std::size_t t = 0; t < types.size(); ++t) {
      std::vector<std::string> names;
      access_names(types[t], "", names);
      for (std::size_t i = 0; i < names.size(); ++i)
        leaves.push_back(wf::make_expr<wf::function_argument_variable>("arg" + std::to_string(t), types[t], i));
    }
    for (std::size_t i = 0; i < 7; ++i) leaves.push_back(o.field(i));
    const wf::compound_expr in = wf::create_custom_type_argument(o.inner, "obj2");
    for (std::size_t i = 0; i < 5; ++i) leaves.push_back(wf::compound_expression_element::create(in, i));
    leaves.push_back(wf::make_unique_variable_symbol(wf::number_set::unknown));
  }
  for (const S& l : leaves) run.scalar([&] { return l; });

  // Aggregates made of expressions: their elements are the expressions.
  // External functions with every combination of argument and return types.
  std::vector<S> calls;
  {
    const std::vector<wf::type_variant> rets{flt, wf::matrix_type(1, 1), wf::matrix_type(2, 1), wf::matrix_type(1, 2), wf::matrix_type(2, 3), wf::type_variant{o.inner}, wf::type_variant{o.outer}};
    const std::vector<std::vector<int>> sigs{{}, {0}, {1}, {2}, {3}, {4}, {0, 0}, {0, 1}, {1, 0}, {2, 0}, {0, 3}, {3, 3}, {1, 2, 0}, {0, 0, 0}, {4, 0}, {4, 1}};
    const wf::custom_type cin = o.inner;
    const wf::external_function made{"ext_cmake", {wf::argument{"q", flt, wf::argument_direction::input, 0}}, wf::type_variant{cin}};
    int id = 0;
    for (const auto& ret : rets)
      for (const auto& sig : sigs) {
        std::vector<wf::argument> args;
        std::vector<std::vector<wf::any_expression>> values(2);
        for (std::size_t k = 0; k < sig.size(); ++k) {
          const std::string nm = "p" + std::to_string(k);
          const wf::type_variant ty = sig[k] == 0 ? wf::type_variant{flt} : sig[k] == 1 ? wf::type_variant{wf::matrix_type(2, 1)} : sig[k] == 2 ? wf::type_variant{wf::matrix_type(2, 2)} : wf::type_variant{sig[k] == 3 ? o.outer : cin};
          args.emplace_back(nm, ty, wf::argument_direction::input, k);
          for (int w = 0; w < 2; ++w) {
            const S a = w ? v.x + v.y : v.x, b = w ? -v.y * v.x : wf::pow(v.y, I(2));
            auto& out = values[static_cast<std::size_t>(w)];
            if (sig[k] == 0) out.emplace_back(k % 2 ? b : a);
            else if (sig[k] == 1) out.emplace_back(wf::make_vector(a, b));
            else if (sig[k] == 2) out.emplace_back(M::create(2, 2, {a, b, I(3), -v.x}));
            else if (sig[k] == 3) out.emplace_back(o.arg);
            else out.emplace_back(std::get<wf::compound_expr>(made.create_invocation({wf::any_expression{a}})));
          }
        }
        const wf::external_function f{"ext" + std::to_string(id++), args, ret};
        for (const auto& val : values) {
          try {
            const wf::any_expression r = f.create_invocation(val);
            if (const S* s = std::get_if<S>(&r)) calls.push_back(*s);
            else if (const M* mm = std::get_if<M>(&r)) for (const S& s : mm->to_vector()) calls.push_back(s);
            else if (const auto* c = std::get_if<wf::compound_expr>(&r)) {
              std::vector<std::string> names;
              access_names(ret, "", names);
              for (std::size_t i = 0; i < names.size(); ++i) calls.push_back(wf::compound_expression_element::create(*c, i));
            }
          } catch (const wf::type_error& x) {
            e.violation("external " + std::to_string(id), x.what());
          }
          if (sig.empty()) break;
        }
      }
  }
  for (const S& c : calls) {
    run.scalar([&] { return c; });
    run.scalar([&] { return wf::pow(-c * v.x, I(2)); });
    run.scalar([&] { return 1 / c - v.x / (c * 2); });
  }
  for (const char* name : {"f", "g"})
    for (int k = 0; k < 4; ++k) {
      std::vector<S> a{v.x + 1, -v.y, wf::pow(v.x, v.y), I(-2)};
      a.erase(a.begin() + k, a.end());
      run.scalar([&] { return fnv(wf::symbolic_function{name}, a); });
      run.scalar([&] { return wf::pow(fnv(wf::symbolic_function{name}, a), I(-2)) * v.x; });
    }

  // Numbers: every exponent with every pattern of leading and trailing mantissa bits.
  {
    std::vector<uint64_t> mant{0, 1, 2, 3, (1ull << 52) - 1, (1ull << 52) - 2, 1ull << 51, (1ull << 51) + 1, (1ull << 51) - 1, 0x999999999999aull, 0x3333333333333ull, 0x5555555555555ull, 0x921fb54442d18ull};
    for (int b = 2; b < 52; b += e.thorough ? 1 : 6) mant.push_back(1ull << b), mant.push_back((1ull << 52) - (1ull << b));
    auto check = [&](double d, bool compound) {
      if (!e.next()) return;
      if (!std::isfinite(d)) return;
      uint64_t dec = 0;
      try {
        const S x{d};
        const std::string text = compound ? (x * v.x).to_string() : x.to_string();
        e.state(ex::Explorer::mix(std::hash<std::string>{}(text)));
        e.sample([&] { return text; });
        NP a = Reader(text).all();
        bool neg = false;
        if (compound && a->kind == "bin" && a->text == "*" && a->kids.size() == 2) a = a->kids[a->kids[0]->kind == "name" ? 1 : 0];
        if (compound && a->kind == "neg" && a->kids[0]->kind == "bin") a = a->kids[0]->kids[0], neg = true;
        if (a->kind == "neg") a = a->kids[0], neg = !neg;
        if (a->kind == "name" && std::abs(d) == 1 && compound) { return; }
        if (a->kind != "num") throw Unreadable("number expected");
        const double g = strtod(a->text.c_str(), nullptr) * (neg ? -1 : 1);
        ++dec;
        if (g != d) e.violation(text, "float " + std::to_string(d) + " reads back differently");
      } catch (const Unreadable& u) {
        e.violation("float", std::string(u.what()) + " " + S{d}.to_string());
      }
      run.report(dec);
    };
    for (int ex = 0; ex < 2047; ++ex)
      for (uint64_t q : mant)
        for (int sg = 0; sg < 2; ++sg) {
          const uint64_t bits = (static_cast<uint64_t>(sg) << 63) | (static_cast<uint64_t>(ex) << 52) | q;
          double d;
          std::memcpy(&d, &bits, 8);
          check(d, false);
          if (q < 4) check(d, true);
        }
    std::vector<long long> ints;
    for (int b = 0; b < 63; ++b)
      for (long long dlt : {-1LL, 0LL, 1LL}) ints.push_back((1LL << b) + dlt), ints.push_back(-(1LL << b) - dlt);
    for (long long q = 1; q < 1000000000000000000LL; q *= 10) ints.push_back(q), ints.push_back(-q);
    ints.push_back(std::numeric_limits<long long>::max());
    for (long long q : ints) {
      run.scalar([&] { return I(q); });
      run.scalar([&] { return I(q) * v.x; });
      run.scalar([&] { return v.x - I(q); });
      for (long long q2 : {3LL, 7LL, 1000000007LL}) {
        run.scalar([&] { return Q(q, q2); });
        run.scalar([&] { return Q(q, q2) * v.x - v.y; });
        run.scalar([&] { return Q(q2, q ? q : 1) * v.x * v.y; });
      }
      if (!e.next()) continue;
      const std::string text = I(q).to_string();
      if (text != std::to_string(q)) e.violation(text, "integer " + std::to_string(q));
      run.report(1);
    }
  }

  // Every kind of node in every operand position.
  std::vector<S> ks = kinds(v, o);
  const std::vector<S> atoms{I(0), I(1), I(-1), I(2), I(-3), Q(1, 2), Q(-2, 3), S(0.5), S(-1.25), S(1e20), S(-1e-7), v.x, v.y, -v.x, im, -im, wf::constants::pi, -wf::constants::pi, wf::constants::euler, wf::constants::complex_infinity, wf::constants::undefined};
  for (const S& a : atoms) ks.push_back(a);
  for (std::size_t i = 0; i < calls.size(); i += 23) ks.push_back(calls[i]);
  for (const S& k : ks) {
    run.scalar([&] { return k; });
    run.scalar([&] { return -k; });
    for (const Fn1& f : fn1()) run.scalar([&] { return f.build(k); });
    run.scalar([&] { return wf::sqrt(k); });
    run.scalar([&] { return wf::make_unevaluated(k); });
    run.scalar([&] { return wf::stop_diff(k); });
    run.scalar([&] { return wf::make_expr<wf::derivative>(k, v.x, 1); });
    run.scalar([&] { return wf::make_expr<wf::derivative>(k, v.y, 3) * 2; });
    run.scalar([&] { return sub_(k, v.x, -v.y); });
  }
  for (std::size_t a = 0; a < ks.size(); ++a)
    for (std::size_t b = 0; b < ks.size(); ++b) {
      const S &k = ks[a], &l = ks[b];
      for (const Op2& op : op2()) {
        run.scalar([&] { return op.build(k, l); });
        if (e.thorough || (a * 7 + b) % 3 == 0) run.scalar([&] { return op.build(wf::make_unevaluated(k), -wf::make_unevaluated(l)); });
      }
      run.scalar([&] { return wf::atan2(k, l); });
      run.scalar([&] { return wf::where(k < l, k, l); });
      run.scalar([&] { return wf::iverson(k <= l); });
      run.scalar([&] { return fnv(o.g, {k, l}) - k; });
      run.truth([&] { return k < l; });
      run.truth([&] { return k <= l; });
      run.truth([&] { return k == l; });
      if ((a + b) % 5 == 0) run.scalar([&] { return sub_(fnv(o.f, {v.y, l}), v.y, k); });
    }
  // Signs, coefficients, reciprocals: two operations on an awkward set.
  const S x = v.x, y = v.y;
  std::vector<S> t{x, y, -x, x * 2, x * -2, x * Q(-2, 3), x * S(-0.5), x / 2, 1 / x, -1 / x, wf::pow(x, I(-2)), wf::pow(x, Q(-1, 2)), wf::pow(y, -x), wf::pow(I(2), -x), wf::pow(I(-2), x), x + y, x - y, -x - y, x * y, x / y, I(-1), I(2), I(-3), Q(1, 2), Q(-3, 2), S(-1.5), S(2.5), im, -im, wf::pow(I(2), Q(1, 2)), wf::pow(I(3), Q(-1, 2))};
  if (!e.thorough) t.erase(t.begin() + 31, t.end());
  else {
    t.push_back(wf::where(v.r < v.s, x, -y)), t.push_back(wf::cos(-x)), t.push_back(wf::make_unevaluated(-x)), t.push_back(wf::make_unevaluated(x * y)), t.push_back(dv(fnv(o.f, {x}), x)), t.push_back(wf::constants::pi), t.push_back(o.field(0)), t.push_back(wf::pow(x, y)), t.push_back(wf::pow(x + y, I(-1)));
  }
  for (const S& a : t)
    for (const S& b : t)
      for (const Op2& op : op2())
        for (const S& c : t)
          for (const Op2& op3 : op2()) {
            run.scalar([&] { return op3.build(op.build(a, b), c); });
            run.scalar([&] { return op3.build(c, op.build(a, b)); });
          }
  // Long sums, products and towers of awkward operands: n operands, starting anywhere, in steps of 1..5.
  {
    std::vector<S> w(t.begin(), t.end());
    for (const S& k : {wf::where(v.r < v.s, x, -y), wf::cos(-x), wf::make_unevaluated(-x), wf::make_unevaluated(x * y), dv(fnv(o.f, {x}), x), wf::constants::pi, o.field(0), wf::pow(x, y), wf::pow(x + y, I(-1)), S(-1e-9), Q(-7, 5), wf::iverson(v.r < v.s), wf::abs(x), wf::pow(wf::make_unevaluated(-x), I(2))}) w.push_back(k);
    for (std::size_t n = 3; n <= (e.thorough ? 14 : 9); ++n)
      for (std::size_t off = 0; off < w.size(); ++off)
        for (std::size_t st = 1; st <= 5; ++st) {
          auto at = [&](std::size_t i) { return w[(off + i * st) % w.size()]; };
          auto fold = [&](auto f) {
            run.scalar([&] {
              S r = at(0);
              for (std::size_t i = 1; i < n; ++i) r = f(r, at(i), i);
              return r;
            });
          };
          fold([](const S& a, const S& b, std::size_t) { return a + b; });
          fold([](const S& a, const S& b, std::size_t) { return a - b; });
          fold([](const S& a, const S& b, std::size_t) { return a * b; });
          fold([](const S& a, const S& b, std::size_t) { return a / b; });
          fold([](const S& a, const S& b, std::size_t) { return b / a; });
          fold([](const S& a, const S& b, std::size_t i) { return i % 2 ? a * b : a + b; });
          fold([](const S& a, const S& b, std::size_t i) { return i % 2 ? a / b : -a - b; });
          fold([](const S& a, const S& b, std::size_t i) { return i % 3 ? wf::make_unevaluated(a) - b : wf::pow(wf::make_unevaluated(a), b); });
          fold([](const S& a, const S& b, std::size_t i) { return i % 3 ? b - wf::make_unevaluated(a) : wf::pow(b, a); });
          fold([](const S& a, const S& b, std::size_t i) { return i % 2 ? wf::make_unevaluated(a) * b : wf::make_unevaluated(b) / a; });
          fold([&](const S& a, const S& b, std::size_t i) { return i % 2 ? wf::where(v.r < b, a, -b) : a - b; });
          fold([&](const S& a, const S& b, std::size_t i) { return i % 2 ? fnv(o.g, {a, b}) : wf::pow(a, I(-2)) * b; });
        }
  }
  if (e.thorough) {
    const std::vector<S> q{x, -y, x * -2, 1 / x, I(-3), Q(-1, 2), x + y, wf::pow(x, I(-2))};
    for (const S& a : q)
      for (const S& b : q)
        for (const S& c : q)
          for (const S& d : q)
            for (const Op2& o1 : op2())
              for (const Op2& o2 : op2())
                for (const Op2& o3 : op2()) {
                  run.scalar([&] { return o3.build(o1.build(a, b), o2.build(c, d)); });
                }
  }
  // Sizes: rows and columns that are longer than those below, with elements that widen the columns.
  for (auto [r, c] : std::vector<std::pair<index_t, index_t>>{{1, 5}, {5, 1}, {1, 9}, {9, 1}, {5, 5}, {6, 2}, {2, 6}, {3, 7}, {7, 3}, {8, 8}, {11, 2}, {2, 11}, {12, 12}})
    for (std::size_t off = 0; off < ks.size(); off += 11) {
      std::vector<S> el;
      for (index_t i = 0; i < r * c; ++i) el.push_back(ks[(off + static_cast<std::size_t>(i) * 5) % ks.size()]);
      run.matrix(r, c, el);
    }
  // Matrices.
  for (index_t r = 0; r <= 4; ++r)
    for (index_t c = 0; c <= 4; ++c) {
      for (std::size_t off = 0; off < ks.size(); off += (e.thorough ? 1 : 3)) {
        std::vector<S> el;
        for (index_t i = 0; i < r * c; ++i) el.push_back(ks[(off + static_cast<std::size_t>(i) * 5) % ks.size()]);
        run.matrix(r, c, el);
        if (r * c == 0) break;
      }
    }
}
}  // namespace

int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
