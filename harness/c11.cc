// C11: lowering to the intermediate representation, its optimisation, control flow conversion, the
// syntax tree and the rebuilt expressions all keep the value of every output.
#include "programs.h"
using namespace h;

namespace {
struct Check {
  ex::Explorer& e;
  Types types;
  int npts;

  void compare(const std::string& key, const char* stage, const FB& b, const Context& pts, const std::vector<std::vector<Vec>>& want, std::size_t p, const Mask& mask, const Saved& got, const Choices& ch) {
    for (std::size_t o = 0; o < b.outs.size(); ++o) {
      const Output& out = b.outs[o];
      const bool wanted = out.key.usage != wf::expression_usage::optional_output_argument || mask.at(out.key.name);
      const Val* v = nullptr;
      for (auto& [k, x] : got.v)
        if (k == out.key) v = &x;
      if (!v && wanted) throw Bad("output is not written: " + out.key.name);
      if (v && !wanted) throw Bad("an output that is not requested is written: " + out.key.name);
      if (!v) continue;
      if (v->e.size() != out.elems.size()) throw Bad("size of output " + out.key.name);
      const auto ft = flat_types(out.type);
      for (std::size_t i = 0; i < v->e.size(); ++i) {
        const Cmp c = ref::compare_values(to_type(want[o][i][p], ft[i]), to_type(v->e[i], ft[i]), false);
        if (c == Cmp::skipped || ch.guessed) continue;
        ++decided_;
        if (c == Cmp::differ) {
          std::string at;
          for (auto& [leaf, vals] : pts.bind) at += " " + leaf.to_string() + "=" + ref::show(vals[p]);
          throw Bad("element " + std::to_string(i) + " of output '" + out.key.name + "' at" + at + ": expected " + ref::show(want[o][i][p]) + " got " + ref::show(v->e[i]));
        }
      }
    }
    for (auto& [k, x] : got.v) {
      bool known = false;
      for (const Output& o : b.outs) known = known || o.key == k;
      if (!known) throw Bad("unknown output: " + k.name);
    }
  }
  uint64_t decided_{0};

  void one(const std::string& key, const Body& body, const Config& cfg) {
    if (!e.next()) return;
    const std::string full = key + " [" + cfg.name() + "]";
    e.sample([&] { return full; });
    FB b(types, "func");
    try {
      body(b);
    } catch (const std::exception& x) {
      e.violation(key, key + ": cannot be described: " + x.what());
      return;
    }
    const Context pts = function_points(b, npts);
    std::vector<std::vector<Vec>> want;
    for (const Output& o : b.outs) {
      want.emplace_back();
      for (const S& q : o.elems) want.back().push_back(*pts.eval(q));
    }
    std::vector<Mask> masks;
    const auto opt = b.optionals();
    for (unsigned m = 0; m < (1u << opt.size()); ++m) {
      Mask k;
      for (std::size_t i = 0; i < opt.size(); ++i) k[opt[i]] = m >> i & 1;
      masks.push_back(k);
    }
    decided_ = 0;
    const char* stage = "lowering";
    wf::control_flow_graph* shown = nullptr;
    auto graph = [&](const char* st, const wf::control_flow_graph& g) {
      stage = st;
      g.assert_invariants();
      // all blocks
      std::unordered_set<const ir::block*> seen;
      std::vector<const ir::block*> todo{g.first_block().get()};
      std::unordered_set<uint32_t> names;
      std::set<std::string> saves;
      while (!todo.empty()) {
        const ir::block* q = todo.back();
        todo.pop_back();
        if (!seen.insert(q).second) continue;
        for (const ir::value_ptr v : q->operations()) {
          if (!names.insert(v->name()).second) throw Bad("a value is in the graph twice: v" + std::to_string(v->name()));
          check_types(*v);
          if (v->is_op<ir::save>() && !saves.insert(v->as_op<ir::save>().key().name).second) throw Bad("an output is saved twice");
        }
        for (const ir::block_ptr d : q->descendants()) todo.push_back(d.get());
      }
      e.count["ir_values"] += names.size();
      if (saves.size() != b.outs.size()) throw Bad("an output is missing");
      const bool conditional = g.num_blocks() > 1;
      for (const Mask& m : conditional ? masks : std::vector<Mask>{masks.back()})
        for (std::size_t p = 0; p < pts.n; ++p) {
          Choices ch;
          do {
            compare(key, st, b, pts, want, p, m, run_ir(g, {pts, p}, m, ch), ch);
            ++e.count["ir_runs"];
          } while (ch.next());
        }
    };
    auto rebuilt = [&](const char* st, const wf::control_flow_graph& g, const Mask& m, bool inter) {
      stage = st;
      const auto r = wf::rebuild_expression_tree(g.first_block(), m, inter);
      Context c = function_points(b, npts);
      std::vector<bool> infinite(c.n);  // an intermediate value is not finite here
      for (auto& [var, val] : r.intermediate_values) {
        Context t;
        t.n = c.n, t.bind = c.bind, t.real_only = true, t.quarantine = false, t.external = external_value;
        const VecP x = t.eval(val);
        for (std::size_t p = 0; p < c.n; ++p) infinite[p] = infinite[p] || !(*x)[p].is_ok();
        c.bind.emplace_back(var, *x);
      }
      for (std::size_t o = 0; o < b.outs.size(); ++o) {
        auto it = r.output_expressions.find(b.outs[o].key);
        if (it == r.output_expressions.end()) throw Bad("no expression for output " + b.outs[o].key.name);
        const auto el = flatten_any_expr(it->second, b.outs[o].type);
        if (el.size() != b.outs[o].elems.size()) throw Bad("size of rebuilt output " + b.outs[o].key.name);
        const auto ft = flat_types(b.outs[o].type);
        for (std::size_t i = 0; i < el.size(); ++i) {
          const VecP g2 = c.eval(el[i]);
          for (std::size_t p = 0; p < c.n; ++p) {
            const Cmp q = ref::compare_values(to_type(want[o][i][p], ft[i]), to_type((*g2)[p], ft[i]), false);
            if (q == Cmp::skipped || (infinite[p] && !(*g2)[p].is_ok())) continue;
            ++decided_;
            if (q == Cmp::differ) throw Bad("rebuilt expression of '" + b.outs[o].key.name + "': " + el[i].to_string() + " is " + ref::show((*g2)[p]) + " instead of " + ref::show(want[o][i][p]));
          }
        }
      }
      ++e.count["rebuilds"];
    };
    try {
      wf::control_flow_graph g = cfg.passes < 0 ? wf::control_flow_graph{b.d} : wf::control_flow_graph{b.d, wf::optimization_params{static_cast<std::size_t>(cfg.passes), cfg.binarize}};
      e.state(ex::Explorer::mix(std::hash<std::string>{}(g.to_string())));
      if (e.replay) printf("%s\n", g.to_string().c_str());
      graph("lowered", g);
      const Mask all = masks.back();
      rebuilt("rebuilt before conversion", g, all, false);
      rebuilt("rebuilt with intermediate values", g, all, true);
      wf::control_flow_graph conv = std::move(g).convert_conditionals_to_control_flow(cfg.ternaries);
      if (e.replay) printf("%s\n", conv.to_string().c_str());
      e.state(ex::Explorer::mix(std::hash<std::string>{}(conv.to_string())));
      e.count["blocks"] += conv.num_blocks();
      graph("converted", conv);
      rebuilt("rebuilt after conversion", conv, all, false);
      stage = "syntax tree";
      const ast::function_definition f = ast::create_ast(conv, b.d);
      if (f.signature().name() != "func" || f.signature().num_arguments() != b.d.arguments().size()) throw Bad("signature");
      for (const Mask& m : masks)
        for (std::size_t p = 0; p < pts.n; ++p) {
          Choices ch;
          do {
            const Inputs in{pts, p};
            AstRun run{in, m, ch, f};
            run.collect_shapes(f.body());
            run.block(f.body());
            compare(key, stage, b, pts, want, p, m, run.out, ch);
            ++e.count["ast_runs"];
          } while (ch.next());
        }
      e.count["values_compared"] += decided_;
      if (decided_) ++e.count["transitions_decided"];
    } catch (const std::exception& x) {
      e.violation(key, full + " (" + stage + "): " + x.what());
    }
    (void)shown;
  }

  // Expressions that have no code must be rejected.
  void rejected(const std::string& key, const S& q) {
    if (!e.next()) return;
    e.sample([&] { return "rejected: " + key; });
    FB b(types, "func");
    Args a(b);
    b.ret(q);
    try {
      wf::control_flow_graph g{b.d};
      e.violation("rejected " + key, key + " is lowered to code:\n" + g.to_string());
    } catch (const wf::type_error&) {
      ++e.count["transitions_decided"];
    } catch (const std::exception& x) {
      e.violation("rejected " + key, key + ": unexpected exception " + x.what());
    }
  }
};

void body(ex::Explorer& e) {
  Check c{e, {}, e.thorough ? 20 : 10};
  all_functions(e.thorough, [&](const std::string& key, const Body& f) {
    std::vector<Config> cfg{{3, true, true}, {-1, false, false}, {2, false, true}, {1, true, false}};
    if (e.thorough) cfg.insert(cfg.end(), {{0, true, true}, {0, false, false}, {1, false, true}, {3, false, false}});
    for (const Config& q : cfg) c.one(key, f, q);
  });
  Args& a = proto();
  Opaque o;
  const S f1 = fnv(o.f, {a.v.x});
  for (const S& q : {wf::constants::imaginary_unit, wf::constants::complex_infinity, wf::constants::undefined, f1, dv(f1, a.v.x), sub_(fnv(o.f, {a.v.y}), a.v.y, a.v.x)})
    for (const S& w : {q, q * a.v.x, q + a.v.x, wf::sin(q), wf::where(a.v.x < a.v.y, q, a.v.x), wf::pow(q, a.v.x)})
      if (!generatable(w)) c.rejected(w.to_string(), w);
}
}  // namespace

int main(int argc, char** argv) { return ex::explorer_main(argc, argv, body); }
