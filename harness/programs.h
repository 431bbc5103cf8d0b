// Interpreters for the intermediate representation and for the syntax tree.
#pragma once
#include "funcs.h"
#include "wf/code_generation/ast_conversion.h"
#include "wf/code_generation/ast_visitor.h"
#include "wf/code_generation/control_flow_graph.h"
#include "wf/code_generation/expr_from_ir.h"
namespace h {
namespace ir = wf::ir;
namespace ast = wf::ast;

struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// A value at run time: scalars, or the flat elements of an object; booleans are 0 / 1.
struct Val {
  std::vector<V> e;
  const V& s() const {
    if (e.size() != 1) throw Bad("a scalar is expected");
    return e[0];
  }
};
V real_only(const V& v) {
  if (v.st == ref::POLE) return V::bad(ref::UNDEF);
  if (v.is_ok() && !v.real()) return V::bad(std::abs(v.v.imag()) <= ref::K * v.err ? ref::NOISE : ref::UNDEF);
  return v;
}
V to_type(const V& v, wf::numeric_primitive_type t, bool check = false) {
  if (t != INT || !v.is_ok()) return v;
  const double r = v.v.real();
  if (std::abs(r - std::round(r)) <= ref::K * v.err && v.err > 0) return V::bad(ref::NOISE);
  return V::ok(std::trunc(r), v.err > 0 ? 0 : v.err);
}
V std_call(wf::std_math_function f, const std::vector<V>& a) {
  using F = wf::std_math_function;
  using B = wf::built_in_function;
  auto t = [&](B b) { return real_only(ref::trig(b, a.at(0))); };
  switch (f) {
    case F::cos: return t(B::cos);
    case F::sin: return t(B::sin);
    case F::tan: return t(B::tan);
    case F::acos: return t(B::arccos);
    case F::asin: return t(B::arcsin);
    case F::atan: return t(B::arctan);
    case F::cosh: return t(B::cosh);
    case F::sinh: return t(B::sinh);
    case F::tanh: return t(B::tanh);
    case F::acosh: return t(B::arccosh);
    case F::asinh: return t(B::arcsinh);
    case F::atanh: return t(B::arctanh);
    case F::log: return t(B::log);
    case F::exp: return t(B::exp);
    case F::abs: return t(B::abs);
    case F::signum: return t(B::signum);
    case F::floor: return t(B::floor);
    case F::sqrt: return real_only(ref::pow_(a.at(0), V::ok(0.5)));
    case F::powi:
    case F::powf: {
      const V v = ref::pow_(a.at(0), a.at(1));
      return v.st == ref::POLE ? v : real_only(v);  // 0 to a negative power: an infinity
    }
    case F::atan2: return real_only(ref::atan2_(a.at(0), a.at(1)));
  }
  throw Bad("unknown function");
}
// Division of doubles: a finite number divided by an infinite one is zero (IEEE 754).
V divide(const V& a, const V& b) {
  if (b.st == ref::POLE && a.is_ok()) return V::ok(0);
  return real_only(ref::mul(a, real_only(ref::inv(b))));
}
V rel_compare(wf::relational_operation op, const V& a, const V& b) {
  const auto r = ref::compare(op, a, b);
  return r.st == ref::OK ? V::ok(r.v ? 1 : 0) : V::bad(r.st);
}

// The values of the leaves at one point.
struct Inputs {
  const Context& all;
  std::size_t i;
  const V& at(const S& e) const {
    for (auto& [l, v] : all.bind)
      if (l.is_identical_to(e)) return v[i];
    throw Bad("not an input: " + e.to_string());
  }
};
using Mask = std::unordered_map<std::string, bool>;
// Branches on undecided conditions are explored both ways.
struct Choices {
  std::vector<int> picks;
  std::size_t pos{0};
  bool guessed{false};  // the values of outputs are not compared on such a path
  bool next() {
    while (!picks.empty() && picks.back() == 1) picks.pop_back();
    if (picks.empty()) return false;
    picks.back() = 1;
    pos = 0;
    return true;
  }
  bool decide(const V& c) {
    if (c.is_ok()) return c.v.real() != 0;
    guessed = true;
    if (pos == picks.size()) {
      if (picks.size() >= 8) return false;
      picks.push_back(0);
    }
    return picks[pos++] == 1;
  }
};
struct Saved {
  std::vector<std::pair<wf::output_key, Val>> v;
  void save(const wf::output_key& k, Val x) {
    for (auto& [q, _] : v)
      if (q == k) throw Bad("output written twice: " + k.name);
    v.emplace_back(k, std::move(x));
  }
};

V load_value(const ir::load& l, const Inputs& in) {
  return std::visit([&](const auto& x) -> V {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, wf::boolean_constant>) return V::ok(x.value() ? 1 : 0);
    else if constexpr (std::is_same_v<T, wf::custom_type_argument>) throw Bad("custom type as scalar");
    else if constexpr (std::is_same_v<T, wf::function_argument_variable> || std::is_same_v<T, wf::variable>) return in.at(S{x});
    else {
      Context c;
      c.n = 1;
      return (*c.eval(S{x}))[0];
    }
  }, l.variant());
}
std::vector<V> custom_arg(const std::string& name, const wf::custom_type& t, const Inputs& in) {
  std::vector<V> o;
  const wf::compound_expr c = wf::create_custom_type_argument(t, name);
  for (std::size_t i = 0; i < t.total_size(); ++i) o.push_back(in.at(wf::compound_expression_element::create(c, i)));
  return o;
}

wf::numeric_primitive_type num(const ir::value& v) { return std::get<wf::scalar_type>(v.type()).numeric_type(); }
void expect(bool c, const char* what) {
  if (!c) throw Bad(what);
}

// Static invariants of one operation.
void check_types(const ir::value& v) {
  auto scalar = [](const ir::value& x) { return std::holds_alternative<wf::scalar_type>(x.type()); };
  if (v.is_op<ir::add, ir::mul>()) {
    expect(v.num_operands() >= 2, "sum or product of less than two operands");
    for (const ir::value_ptr o : v.operands()) expect(scalar(*o) && num(*o) == num(v), "operands of a sum or product differ in type");
    expect(num(v) != wf::numeric_primitive_type::boolean, "boolean arithmetic");
  } else if (v.is_op<ir::div>()) {
    expect(num(v) == FLT && num(*v[0]) == FLT && num(*v[1]) == FLT, "division of integers");
  } else if (v.is_op<ir::neg>()) {
    expect(num(v) == num(*v[0]), "negation changes the type");
  } else if (v.is_op<ir::compare>()) {
    expect(num(*v[0]) == num(*v[1]) && num(v) == wf::numeric_primitive_type::boolean, "comparison of different types");
  } else if (v.is_op<ir::cond>()) {
    expect(num(*v[0]) == wf::numeric_primitive_type::boolean && num(*v[1]) == num(*v[2]) && num(v) == num(*v[1]), "types of a conditional");
  } else if (v.is_op<ir::phi>()) {
    expect(num(*v[0]) == num(*v[1]) && num(v) == num(*v[1]), "types of a phi");
  } else if (v.is_op<ir::copy>()) {
    expect(num(*v[0]) == num(v), "a copy changes the type");
  } else if (v.is_op<ir::cast>()) {
    expect(num(v) == v.as_op<ir::cast>().destination_type(), "type of a cast");
  } else if (v.is_op<ir::call_std_function>()) {
    const auto f = v.as_op<ir::call_std_function>().name();
    if (f == wf::std_math_function::powi) expect(num(*v[1]) == INT && num(*v[0]) == FLT, "powi");
    if (f == wf::std_math_function::powf) expect(num(*v[1]) == FLT && num(*v[0]) == FLT, "powf");
    if (f == wf::std_math_function::sqrt) expect(num(*v[0]) == FLT, "sqrt");
  } else if (v.is_op<ir::construct>()) {
    std::vector<wf::numeric_primitive_type> t;
    std::visit([&](const auto& ty) { t = flat_types(wf::type_variant{ty}); }, v.as_op<ir::construct>().type());
    expect(t.size() == v.num_operands(), "number of elements of an object");
    for (std::size_t i = 0; i < t.size(); ++i) expect(num(*v[i]) == t[i], "type of an element of an object");
  } else if (v.is_op<ir::call_external_function>()) {
    const auto& f = v.as_op<ir::call_external_function>().function();
    expect(f.num_arguments() == v.num_operands(), "number of arguments");
    for (std::size_t i = 0; i < v.num_operands(); ++i)
      if (const auto* s = std::get_if<wf::scalar_type>(&f.argument_at(i).type()); s) expect(scalar(*v[i]) && num(*v[i]) == s->numeric_type(), "type of an argument");
  }
}

// Runs the control flow graph once.
Saved run_ir(const wf::control_flow_graph& g, const Inputs& in, const Mask& mask, Choices& ch) {
  Saved out;
  std::unordered_map<const ir::value*, Val> vals;
  std::unordered_set<const ir::block*> done;
  const ir::block* b = g.first_block().get();
  std::size_t steps = 0;
  while (b) {
    if (++steps > 10000) throw Bad("does not terminate");
    if (!done.insert(b).second) throw Bad("a block is executed twice");
    std::optional<bool> jump;
    for (std::size_t oi = 0; oi < b->operations().size(); ++oi) {
      const ir::value& v = *b->operations()[oi];
      if (v.parent().get() != b) throw Bad("the block of a value is not the one that holds it");
      auto arg = [&](std::size_t i) -> const Val& {
        auto it = vals.find(v[i].get());
        if (it == vals.end()) throw Bad("v" + std::to_string(v[i]->name()) + " is used before it is computed (by v" + std::to_string(v.name()) + ")");
        return it->second;
      };
      std::vector<V> sc;
      if (!v.is_op<ir::phi, ir::call_external_function, ir::get, ir::save, ir::load, ir::output_required>())
        for (std::size_t i = 0; i < v.num_operands(); ++i) sc.push_back(arg(i).s());
      Val r;
      std::visit([&](const auto& op) {
        using T = std::decay_t<decltype(op)>;
        if constexpr (std::is_same_v<T, ir::add>) {
          V s = V::ok(0);
          for (const V& q : sc) s = ref::add(s, q);
          r.e = {s};
        } else if constexpr (std::is_same_v<T, ir::mul>) {
          V s = V::ok(1);
          for (const V& q : sc) s = ref::mul(s, q);
          r.e = {s};
        } else if constexpr (std::is_same_v<T, ir::neg>) {
          r.e = {ref::neg(sc[0])};
        } else if constexpr (std::is_same_v<T, ir::div>) {
          r.e = {divide(sc[0], sc[1])};
        } else if constexpr (std::is_same_v<T, ir::copy>) {
          r.e = {sc[0]};
        } else if constexpr (std::is_same_v<T, ir::cast>) {
          r.e = {to_type(sc[0], op.destination_type())};
        } else if constexpr (std::is_same_v<T, ir::compare>) {
          r.e = {rel_compare(op.operation(), sc[0], sc[1])};
        } else if constexpr (std::is_same_v<T, ir::cond>) {
          r.e = {sc[0].is_ok() ? (sc[0].v.real() != 0 ? sc[1] : sc[2]) : sc[0]};
        } else if constexpr (std::is_same_v<T, ir::call_std_function>) {
          r.e = {std_call(op.name(), sc)};
        } else if constexpr (std::is_same_v<T, ir::construct>) {
          r.e = sc;
        } else if constexpr (std::is_same_v<T, ir::call_external_function>) {
          std::vector<V> flat;
          for (std::size_t i = 0; i < v.num_operands(); ++i) {
            const auto& q = arg(i).e;
            if (q.size() != flat_size(op.function().argument_at(i).type())) throw Bad("argument of an external function has the wrong size");
            flat.insert(flat.end(), q.begin(), q.end());
          }
          for (std::size_t i = 0; i < flat_size(op.return_type()); ++i) r.e.push_back(external_value(op.function().name(), i, flat));
        } else if constexpr (std::is_same_v<T, ir::get>) {
          r.e = {arg(0).e.at(op.index())};
        } else if constexpr (std::is_same_v<T, ir::load>) {
          if (const auto* c = std::get_if<wf::custom_type_argument>(&op.variant()); c) r.e = custom_arg(c->argument_name(), c->type(), in);
          else r.e = {load_value(op, in)};
        } else if constexpr (std::is_same_v<T, ir::phi>) {
          // the operand that was computed on this path
          const bool l = done.count(v[0]->parent().get()), q = done.count(v[1]->parent().get());
          if (l == q) throw Bad(l ? "both operands of a phi are on one path" : "no operand of a phi is on the path");
          r = arg(l ? 0 : 1);
        } else if constexpr (std::is_same_v<T, ir::output_required>) {
          auto it = mask.find(op.name());
          if (it == mask.end()) throw Bad("not an optional output: " + op.name());
          r.e = {V::ok(it->second ? 1 : 0)};
        } else if constexpr (std::is_same_v<T, ir::save>) {
          out.save(op.key(), arg(0));
          return;
        } else if constexpr (std::is_same_v<T, ir::jump_condition>) {
          if (oi + 1 != b->operations().size()) throw Bad("a jump is not the last operation of its block");
          jump = ch.decide(sc[0]);
          return;
        }
      }, v.value_op());
      if (!r.e.empty()) vals[&v] = std::move(r);
    }
    const auto& next = b->descendants();
    if (jump) {
      if (next.size() != 2) throw Bad("a conditional jump needs two targets");
      b = next[*jump ? 0 : 1].get();
    } else {
      if (next.size() > 1) throw Bad("two targets without a condition");
      b = next.empty() ? nullptr : next[0].get();
    }
  }
  return out;
}

// Runs the syntax tree once.
struct AstRun {
  const Inputs& in;
  const Mask& mask;
  Choices& ch;
  const ast::function_definition& f;
  Saved out;
  bool returned{false};
  struct Var {
    std::string name;
    std::optional<Val> v;
    bool constant;
  };
  std::vector<std::vector<Var>> scopes{};

  Var* find(const std::string& n) {
    for (auto s = scopes.rbegin(); s != scopes.rend(); ++s)
      for (auto& v : *s)
        if (v.name == n) return &v;
    return nullptr;
  }
  void block(const std::vector<ast::ast_element>& b) {
    scopes.emplace_back();
    for (const auto& e : b) {
      if (returned) throw Bad("code after the return statement");
      stmt(e);
    }
    scopes.pop_back();
  }
  wf::output_key key(const wf::argument& a) const {
    return wf::output_key{a.is_optional() ? wf::expression_usage::optional_output_argument : wf::expression_usage::output_argument, a.name()};
  }
  void write(const wf::argument& a, Val v) {
    if (a.is_input()) throw Bad("an input is written");
    if (v.e.size() != flat_size(a.type())) throw Bad("size of an output");
    out.save(key(a), std::move(v));
  }
  void stmt(const ast::ast_element& e) {
    ast::visit(e, [&](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, ast::comment>) {
      } else if constexpr (std::is_same_v<T, ast::declaration>) {
        if (find(x.name)) throw Bad("declared twice: " + x.name);
        if (f.signature().argument_by_name(x.name)) throw Bad("variable hides an argument: " + x.name);
        std::optional<Val> v;
        if (x.value) {
          v = eval(*x.value);
          if (v->e.size() != flat_size(x.type)) throw Bad("type of a declaration");
          convert(*v, x.type);
        }
        scopes.back().push_back({x.name, v, x.value.has_value()});
      } else if constexpr (std::is_same_v<T, ast::assign_temporary>) {
        Var* v = find(x.left);
        if (!v) throw Bad("assignment to an undeclared variable: " + x.left);
        if (v->constant) throw Bad("assignment to a constant: " + x.left);
        if (v->v) throw Bad("assigned twice: " + x.left);
        v->v = eval(x.right);
      } else if constexpr (std::is_same_v<T, ast::assign_output_scalar>) {
        write(x.arg, converted(eval(x.value), x.arg.type()));
      } else if constexpr (std::is_same_v<T, ast::assign_output_matrix>) {
        write(x.arg, construct(x.value));
      } else if constexpr (std::is_same_v<T, ast::assign_output_struct>) {
        write(x.arg, converted(construct(x.value), x.arg.type()));
      } else if constexpr (std::is_same_v<T, ast::branch>) {
        if (ch.decide(eval(x.condition).s())) block(x.if_branch);
        else block(x.else_branch);
      } else if constexpr (std::is_same_v<T, ast::optional_output_branch>) {
        auto it = mask.find(x.arg.name());
        if (it == mask.end()) throw Bad("not an optional output: " + x.arg.name());
        if (it->second) block(x.statements);
      } else if constexpr (std::is_same_v<T, ast::return_object>) {
        if (scopes.size() != 1) throw Bad("return inside of a branch");
        if (!f.signature().return_type()) throw Bad("return without a return type");
        returned = true;
        out.save(wf::output_key{wf::expression_usage::return_value, ""}, converted(eval(x.value), *f.signature().return_type()));
      } else {
        throw Bad(std::string("not a statement: ") + std::string(T::snake_case_name_str));
      }
    });
  }
  static void convert(Val& v, const wf::type_variant& t) {
    const auto ft = flat_types(t);
    if (ft.size() != v.e.size()) throw Bad("size of a value");
    for (std::size_t i = 0; i < ft.size(); ++i) v.e[i] = to_type(v.e[i], ft[i]);
  }
  static Val converted(Val v, const wf::type_variant& t) {
    convert(v, t);
    return v;
  }
  Val construct(const ast::construct_matrix& x) {
    Val r;
    if (x.args.size() != x.type.size()) throw Bad("number of matrix elements");
    for (const auto& a : x.args) r.e.push_back(eval(a).s());
    return r;
  }
  Val construct(const ast::construct_custom_type& x) {
    Val r;
    if (x.field_values.size() != x.type.fields().size()) throw Bad("number of fields");
    for (std::size_t i = 0; i < x.field_values.size(); ++i) {
      const auto& [n, v] = x.field_values[i];
      if (n != x.type.fields()[i].name()) throw Bad("order of fields");
      Val q = converted(eval(v), x.type.fields()[i].type());
      r.e.insert(r.e.end(), q.e.begin(), q.e.end());
    }
    return r;
  }
  // the type of an object expression, to find fields
  Val field(const Val& v, const wf::custom_type& t, const std::string& name) {
    std::size_t o = 0;
    for (const auto& f : t.fields()) {
      const std::size_t n = flat_size(f.type());
      if (f.name() == name) {
        if (v.e.size() != t.total_size()) throw Bad("field of a value of another type");
        return Val{{v.e.begin() + static_cast<long>(o), v.e.begin() + static_cast<long>(o + n)}};
      }
      o += n;
    }
    throw Bad("no such field: " + name);
  }
  // Columns of a matrix-valued expression.
  std::pair<long, long> shape(const ast::ast_element& e) {
    std::pair<long, long> r{-1, -1};
    auto of = [&](const wf::type_variant& t) {
      if (const auto* m = std::get_if<wf::matrix_type>(&t); m) r = {m->rows(), m->cols()};
    };
    ast::visit(e, [&](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, ast::get_argument>) of(x.arg.type());
      else if constexpr (std::is_same_v<T, ast::get_field>) of(x.type.field_by_name(x.field)->type());
      else if constexpr (std::is_same_v<T, ast::construct_matrix>) r = {x.type.rows(), x.type.cols()};
      else if constexpr (std::is_same_v<T, ast::call_external_function>) of(x.function.return_type());
      else if constexpr (std::is_same_v<T, ast::parenthetical>) r = shape(x.contents);
      else if constexpr (std::is_same_v<T, ast::variable_ref>) r = shapes[x.name];
    });
    return r;
  }
  std::map<std::string, std::pair<long, long>> shapes{};

  bool infinite{false};  // a value that was computed is not finite or not determined
  double large{0};       // largest integer that was computed
  bool cut{false};       // an angle at its cut, where its sign depends on the sign of a zero
  Val eval(const ast::ast_element& e) {
    Val r = eval_(e);
    for (const V& v : r.e) {
      infinite = infinite || !v.is_ok();
      if (v.is_ok() && v.v.real() == std::floor(v.v.real())) large = std::max(large, std::abs(v.v.real()));
    }
    return r;
  }
  Val eval_(const ast::ast_element& e) {
    return ast::visit(e, [&](const auto& x) -> Val {
      using T = std::decay_t<decltype(x)>;
      auto one = [](V v) { return Val{{std::move(v)}}; };
      if constexpr (std::is_same_v<T, ast::add>) {
        V s = V::ok(0);
        for (const auto& a : x.args) s = ref::add(s, eval(a).s());
        return one(s);
      } else if constexpr (std::is_same_v<T, ast::multiply>) {
        V s = V::ok(1);
        for (const auto& a : x.args) s = ref::mul(s, eval(a).s());
        return one(s);
      } else if constexpr (std::is_same_v<T, ast::negate>) {
        return one(ref::neg(eval(x.arg).s()));
      } else if constexpr (std::is_same_v<T, ast::divide>) {
        return one(divide(eval(x.left).s(), eval(x.right).s()));
      } else if constexpr (std::is_same_v<T, ast::boolean_literal>) {
        return one(V::ok(x.value ? 1 : 0));
      } else if constexpr (std::is_same_v<T, ast::float_literal> || std::is_same_v<T, ast::integer_literal>) {
        const double d = static_cast<double>(x.value);
        return one(V::ok(d, std::abs(d) < 1e9 && d * 1048576 == std::trunc(d * 1048576) ? 0 : ref::EPS * std::abs(d)));
      } else if constexpr (std::is_same_v<T, ast::special_constant>) {
        return one(V::ok(x.value == wf::symbolic_constant_enum::pi ? M_PI : M_E, 3 * ref::EPS));
      } else if constexpr (std::is_same_v<T, ast::cast>) {
        return one(to_type(eval(x.arg).s(), x.destination_type));
      } else if constexpr (std::is_same_v<T, ast::compare>) {
        return one(rel_compare(x.operation, eval(x.left).s(), eval(x.right).s()));
      } else if constexpr (std::is_same_v<T, ast::ternary>) {
        const V c = eval(x.condition).s();
        if (!c.is_ok()) return one(c);
        return c.v.real() != 0 ? eval(x.left) : eval(x.right);
      } else if constexpr (std::is_same_v<T, ast::call_std_function>) {
        std::vector<V> a;
        for (const auto& q : x.args) a.push_back(eval(q).s());
        if (x.function == wf::std_math_function::atan2 && a[0].v == 0.0 && a[1].v.real() <= 0) cut = true;
        return one(std_call(x.function, a));
      } else if constexpr (std::is_same_v<T, ast::call_external_function>) {
        std::vector<V> flat;
        for (std::size_t i = 0; i < x.args.size(); ++i) {
          Val q = converted(eval(x.args[i]), x.function.argument_at(i).type());
          flat.insert(flat.end(), q.e.begin(), q.e.end());
        }
        Val r;
        for (std::size_t i = 0; i < flat_size(x.function.return_type()); ++i) r.e.push_back(external_value(x.function.name(), i, flat));
        return r;
      } else if constexpr (std::is_same_v<T, ast::construct_matrix> || std::is_same_v<T, ast::construct_custom_type>) {
        return construct(x);
      } else if constexpr (std::is_same_v<T, ast::parenthetical>) {
        return eval(x.contents);
      } else if constexpr (std::is_same_v<T, ast::variable_ref>) {
        Var* v = find(x.name);
        if (!v) throw Bad("undeclared variable: " + x.name);
        if (!v->v) throw Bad("variable read before it is written: " + x.name);
        return *v->v;
      } else if constexpr (std::is_same_v<T, ast::get_argument>) {
        if (!x.arg.is_input()) throw Bad("an output is read");
        if (x.arg.is_custom_type()) return Val{custom_arg(x.arg.name(), std::get<wf::custom_type>(x.arg.type()), in)};
        Val r;
        const auto s = x.arg.create_symbolic_input();
        if (const S* q = std::get_if<S>(&s); q) r.e = {in.at(*q)};
        else for (const S& q : std::get<wf::matrix_expr>(s).to_vector()) r.e.push_back(in.at(q));
        return r;
      } else if constexpr (std::is_same_v<T, ast::get_field>) {
        return field(eval(x.arg), x.type, x.field);
      } else if constexpr (std::is_same_v<T, ast::get_matrix_element>) {
        const Val m = eval(x.arg);
        const auto [r, c] = shape_of(x.arg, m);
        if (x.row < 0 || x.col < 0 || x.row >= r || x.col >= c) throw Bad("matrix index out of range");
        return one(m.e.at(static_cast<std::size_t>(x.row * c + x.col)));
      } else {
        throw Bad(std::string("not an expression: ") + std::string(T::snake_case_name_str));
      }
    });
  }
  std::pair<long, long> shape_of(const ast::ast_element& e, const Val& v) {
    const auto s = shape(e);
    if (s.first * s.second != static_cast<long>(v.e.size())) throw Bad("element of something that is not a matrix");
    return s;
  }
  void collect_shapes(const std::vector<ast::ast_element>& b) {
    for (const auto& e : b)
      ast::visit(e, [&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, ast::declaration>) {
          if (const auto* m = std::get_if<wf::matrix_type>(&x.type); m) shapes[x.name] = {m->rows(), m->cols()};
        } else if constexpr (std::is_same_v<T, ast::branch>) {
          collect_shapes(x.if_branch);
          collect_shapes(x.else_branch);
        } else if constexpr (std::is_same_v<T, ast::optional_output_branch>) {
          collect_shapes(x.statements);
        }
      });
  }
};

struct Config {
  int passes;
  bool binarize, ternaries;
  std::string name() const { return "factorize=" + std::to_string(passes) + (binarize ? " binarize" : "") + (ternaries ? " branches" : " ternaries"); }
};

}  // namespace h
