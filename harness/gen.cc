// Writes the code generated for every function of the families of funcs.h, with drivers and the
// expected values, for C12 (cpp), C13 (python) and C14 (rust).
//   gen LANG OUTDIR TIER SHARD NSHARDS CHUNK [CASE]
#include <fstream>
#include <sys/resource.h>
#include "programs.h"
#include "wf/code_generation/cpp_code_generator.h"
#include "wf/code_generation/python_code_generator.h"
#include "wf/code_generation/rust_code_generator.h"
using namespace h;

namespace {
// Matrices are built with Eigen when arguments are passed as spans (an override that users make).
struct SpanGen final : wf::cpp_code_generator {
  SpanGen() : cpp_code_generator(wf::cpp_matrix_type_behavior::generic_span) {}
  using cpp_code_generator::operator();
  wf::cpp_code_generator e{wf::cpp_matrix_type_behavior::eigen};
  std::string operator()(const wf::matrix_type& m) const override { return e(m); }
  std::string operator()(const ast::construct_matrix& x) const override {
    std::string s = "(Eigen::Matrix<Scalar, " + std::to_string(x.type.rows()) + ", " + std::to_string(x.type.cols()) + ">() << ";
    for (std::size_t i = 0; i < x.args.size(); ++i) s += (i ? ", " : "") + cpp_code_generator::operator()(x.args[i]);
    return s + ").finished()";
  }
};
struct RustGen final : wf::rust_code_generator {
  using rust_code_generator::operator();
  std::string operator()(const wf::matrix_type& m) const override { return "Mat<" + std::to_string(m.rows()) + ", " + std::to_string(m.cols()) + ">"; }
  std::string operator()(const ast::construct_matrix& x) const override {
    std::string s = "Mat::<" + std::to_string(x.type.rows()) + ", " + std::to_string(x.type.cols()) + ">::of(&[";
    for (std::size_t i = 0; i < x.args.size(); ++i) s += (i ? ", " : "") + rust_code_generator::operator()(x.args[i]);
    return s + "])";
  }
};

std::string esc(const std::string& s) {
  std::string o;
  for (char c : s)
    if (c == '"' || c == '\\') (o += '\\') += c;
    else if (c == '\n') o += "\\n";
    else o += c;
  return o;
}

struct Driver {
  std::string lang, dir;
  int chunk;
  std::string code, drv, table;
  std::vector<double> data;
  std::size_t in_chunk{0}, files{0};
  std::string prefix;

  void flush() {
    if (!in_chunk) return;
    const std::string base = dir + "/" + prefix + std::to_string(files++);
    std::ofstream d(base + ".bin", std::ios::binary);
    d.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(data.size() * sizeof(double)));
    if (lang == "cpp") {
      std::ofstream(base + ".cc") << "#include \"prelude.h\"\nnamespace gen {\n" << code << "}\n" << drv << "static const Entry entries[] = {\n" << table << "};\nint main(int c, char** v) { return drive(entries, sizeof(entries) / sizeof(entries[0]), c, v); }\n";
    } else if (lang == "rust") {
      std::ofstream(base + ".rs") << "include!(\"prelude.rs\");\nmod gen {\nuse super::*;\n" << code << "}\n" << drv << "static ENTRIES: &[Entry] = &[\n" << table << "];\nfn main() { drive(ENTRIES) }\n";
    } else {
      std::ofstream(base + ".json") << "[\n" << table.substr(0, table.size() - 2) << "\n]\n";
    }
    code.clear(), drv.clear(), table.clear(), data.clear();
    in_chunk = 0;
  }

  // name: variant of the function; pts: expected values
  void emit(std::size_t id, const std::string& variant, const std::string& key, const std::string& text, const std::string& fname, const FB& b, const Context& pts, const std::vector<std::vector<double>>& want, const std::vector<std::vector<double>>& tol, bool spans, const std::string& opts = "") {
    const std::string uid = std::to_string(id) + variant;
    const auto opt = b.optionals();
    const unsigned nm = 1u << opt.size();
    std::string optidx;  // per element: index of the optional output, or -1
    std::size_t nout = 0;
    for (const Output& o : b.outs)
      for (std::size_t i = 0; i < o.elems.size(); ++i, ++nout) {
        int k = -1;
        for (std::size_t q = 0; q < opt.size(); ++q)
          if (o.key.usage == wf::expression_usage::optional_output_argument && opt[q] == o.key.name) k = static_cast<int>(q);
        optidx += (optidx.empty() ? "" : ",") + std::to_string(k);
      }
    const std::size_t nin = b.leaves.size(), off = data.size();
    std::size_t np = 0;
    for (std::size_t p = 0; p < pts.n; ++p) {
      if (tol[p].empty()) continue;
      for (const auto& [l, v] : pts.bind) data.push_back(v[p].v.real());
      for (std::size_t i = 0; i < nout; ++i) data.push_back(want[p][i]), data.push_back(tol[p][i]);
      ++np;
    }
    auto tname = [](const wf::type_variant& t) { return std::get<wf::custom_type>(t).name(); };
    if (lang == "python") {
      std::string a, o;
      for (const wf::argument& g : b.d.arguments()) {
        if (!g.is_input()) continue;
        a += (a.empty() ? "" : ",") + std::string("[\"") + g.name() + "\",";
        if (const auto* s = std::get_if<wf::scalar_type>(&g.type())) a += s->numeric_type() == INT ? "\"int\"]" : "\"float\"]";
        else if (const auto* m = std::get_if<wf::matrix_type>(&g.type())) a += "\"mat\"," + std::to_string(m->rows()) + "," + std::to_string(m->cols()) + "]";
        else a += "\"" + tname(g.type()) + "\"]";
      }
      for (const Output& g : b.outs) {
        o += (o.empty() ? "" : ",") + std::string("[\"") + g.key.name + "\"," + (g.key.usage == wf::expression_usage::return_value ? "\"ret\"" : g.key.usage == wf::expression_usage::output_argument ? "\"out\"" : "\"opt\"") + ",";
        if (const auto* s = std::get_if<wf::scalar_type>(&g.type)) o += s->numeric_type() == INT ? "\"int\"]" : "\"float\"]";
        else if (const auto* m = std::get_if<wf::matrix_type>(&g.type)) o += "\"mat\"," + std::to_string(m->rows()) + "," + std::to_string(m->cols()) + "]";
        else o += "\"" + tname(g.type) + "\"]";
      }
      table += "{\"id\":\"" + uid + "\",\"key\":\"" + esc(key) + "\",\"name\":\"" + fname + "\",\"opts\":\"" + opts + "\",\"code\":\"" + esc(text) + "\",\"args\":[" + a + "],\"outs\":[" + o + "],\"nin\":" + std::to_string(nin) + ",\"nout\":" + std::to_string(nout) + ",\"np\":" + std::to_string(np) + ",\"off\":" + std::to_string(off) + "},\n";
    } else {
      const bool cpp = lang == "cpp";
      code += text + "\n";
      std::string d, call0, post;
      std::size_t k = 0;
      d = cpp ? "static void drv_" + uid + "(const double* in, double* out, unsigned mask) {\n  (void)in; (void)mask;\n" : "fn drv_" + uid + "(inp: &[f64], out: &mut [f64], mask: u32) {\n  #![allow(unused)]\n";
      std::size_t o0 = 0;
      std::map<std::string, std::pair<std::size_t, const Output*>> where;
      const Output* ret = nullptr;
      std::size_t ret_at = 0;
      for (const Output& g : b.outs) {
        if (g.key.usage == wf::expression_usage::return_value) ret = &g, ret_at = o0;
        else where[g.key.name] = {o0, &g};
        o0 += g.elems.size();
      }
      std::vector<std::vector<std::string>> args(nm);
      for (const wf::argument& g : b.d.arguments()) {
        const std::string n = "a_" + g.name();
        const auto* s = std::get_if<wf::scalar_type>(&g.type());
        const auto* m = std::get_if<wf::matrix_type>(&g.type());
        const std::string at = std::to_string(k);
        std::string ty;
        if (s) ty = s->numeric_type() == INT ? (cpp ? "std::int64_t" : "i64") : (cpp ? "double" : "f64");
        else if (m) ty = (cpp ? "Eigen::Matrix<double, " : "Mat<") + std::to_string(m->rows()) + ", " + std::to_string(m->cols()) + ">";
        else ty = tname(g.type());
        if (g.is_input()) {
          if (cpp) {
            if (s) d += "  const " + ty + " " + n + " = static_cast<" + ty + ">(in[" + at + "]);\n";
            else d += "  " + ty + " " + n + "; ld(" + n + ", in + " + at + ");\n";
          } else {
            if (s) d += "  let " + n + " = inp[" + at + "] as " + ty + ";\n";
            else d += "  let " + n + " = <" + ty + ">::ld(&inp[" + at + "..]);\n";
          }
          for (auto& q : args) q.push_back(cpp || s ? n : "&" + n);
          k += flat_size(g.type());
        } else {
          const auto [oat, og] = where.at(g.name());
          if (cpp) {
            d += "  " + ty + " " + n + "; sentinel(" + n + ");\n";
            post += "  st(" + n + ", out + " + std::to_string(oat) + ");\n";
          } else {
            d += "  let mut " + n + " = <" + ty + ">::sentinel();\n";
            post += "  " + n + ".st(&mut out[" + std::to_string(oat) + "..]);\n";
          }
          for (unsigned q = 0; q < nm; ++q) {
            if (!g.is_optional()) {
              args[q].push_back(cpp ? n : "&mut " + n);
              continue;
            }
            bool on = false;
            for (std::size_t z = 0; z < opt.size(); ++z) on = on || (opt[z] == g.name() && (q >> z & 1));
            if (cpp) args[q].push_back(on ? (m && spans ? n : "&" + n) : "nullptr");
            else args[q].push_back(on ? "Some(&mut " + n + ")" : (m ? "None::<&mut " + ty + ">" : "None"));
          }
        }
      }
      auto call = [&](unsigned q) {
        std::string a;
        for (const auto& z : args[q]) a += (a.empty() ? "" : ", ") + z;
        std::string c = (cpp ? "gen::" + fname + "<double>(" : "gen::" + fname + "(") + a + ")";
        if (ret) c = cpp ? "st(" + c + ", out + " + std::to_string(ret_at) + ")" : c + ".st(&mut out[" + std::to_string(ret_at) + "..])";
        return c + ";";
      };
      if (nm == 1) {
        d += "  " + call(0) + "\n";
      } else {
        d += cpp ? "  switch (mask) {\n" : "  match mask {\n";
        for (unsigned q = 0; q < nm; ++q) d += cpp ? "    case " + std::to_string(q) + ": " + call(q) + " break;\n" : "    " + (q + 1 == nm ? std::string("_") : std::to_string(q)) + " => { " + call(q) + " }\n";
        d += "  }\n";
      }
      drv += d + post + "}\n";
      const std::string tail = std::to_string(nin) + ", " + (cpp ? "" : "nout: ") + std::to_string(nout) + ", ";
      if (cpp) {
        drv += "static const int opt_" + uid + "[] = {" + optidx + "};\n";
        table += "{\"" + uid + "\", drv_" + uid + ", opt_" + uid + ", " + std::to_string(nin) + ", " + std::to_string(nout) + ", " + std::to_string(nm) + ", " + std::to_string(np) + ", " + std::to_string(off) + "},\n";
      } else {
        table += "Entry { id: \"" + uid + "\", f: drv_" + uid + ", opt: &[" + optidx + "], nin: " + std::to_string(nin) + ", nout: " + std::to_string(nout) + ", nm: " + std::to_string(nm) + ", np: " + std::to_string(np) + ", off: " + std::to_string(off) + " },\n";
      }
    }
    if (++in_chunk >= static_cast<std::size_t>(chunk)) flush();
  }
};
}  // namespace

int main(int argc, char** argv) {
  if (argc < 7) return 2;
  struct rlimit rl{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  const std::string lang = argv[1], dir = argv[2];
  const bool thorough = std::string(argv[3]) == "thorough";
  const unsigned shard = static_cast<unsigned>(atoi(argv[4])), nshards = static_cast<unsigned>(atoi(argv[5]));
  const long only = argc > 7 ? atol(argv[7]) : -1;
  Driver dr;
  dr.lang = lang, dr.dir = dir, dr.chunk = atoi(argv[6]), dr.prefix = "c" + std::to_string(shard) + "_";
  const Types types;
  std::ofstream index(dir + "/index" + std::to_string(shard));
  std::size_t id = 0, nfun = 0, nvar = 0, npoint = 0, rejected = 0, big_skipped = 0;
  std::ofstream errors(dir + "/errors" + std::to_string(shard));
  SpanGen span;
  wf::cpp_code_generator eigen{wf::cpp_matrix_type_behavior::eigen};
  RustGen rust;
  const int npts = thorough ? 12 : 8;
  all_functions(thorough, [&](const std::string& key, const Body& body) {
    const std::size_t me = id++;
    if (only >= 0 ? me != static_cast<std::size_t>(only) : ex::Explorer::mix(me / 4) % nshards != shard) return;
    ++nfun;
    index << me << "\t" << key << "\n";
    std::set<std::string> texts;
    FB ref(types, "ref");
    body(ref);
    const Context pts = function_points(ref, npts);
    std::vector<std::vector<Vec>> want;
    for (const Output& o : ref.outs) {
      want.emplace_back();
      for (const S& q : o.elems) want.back().push_back(*pts.eval(q));
    }
    const auto opt = ref.optionals();
    Mask all;
    for (const auto& o : opt) all[o] = true;
    for (int ternaries = 1; ternaries >= 0; --ternaries) {
      const std::string fname = "f" + std::to_string(me) + (ternaries ? "b" : "t");
      try {
        FB b(types, fname);
        body(b);
        const wf::control_flow_graph g = wf::control_flow_graph{b.d, wf::optimization_params{}}.convert_conditionals_to_control_flow(ternaries);
        const ast::function_definition f = ast::create_ast(g, b.d);
        std::vector<std::vector<double>> w(pts.n), t(pts.n);
        for (std::size_t p = 0; p < pts.n; ++p) {
          Choices ch;
          const Inputs in{pts, p};
          AstRun run{in, all, ch, f};
          run.collect_shapes(f.body());
          run.block(f.body());
          if (ch.guessed || run.infinite || (lang == "python" && (run.cut || run.large >= 2147483648.0)) || run.large > 9e15) {
            big_skipped += run.large >= 2147483648.0;
            continue;
          }
          std::size_t n = 0;
          bool any = false;
          for (std::size_t o = 0; o < b.outs.size(); ++o) {
            const Val* v = nullptr;
            for (auto& [k, x] : run.out.v)
              if (k == b.outs[o].key) v = &x;
            const auto ft = flat_types(b.outs[o].type);
            for (std::size_t i = 0; i < ft.size(); ++i, ++n) {
              const V a = to_type(want[o][i][p], ft[i]);
              double ww = 0, tt = -1;
              if (v && i < v->e.size() && a.is_ok() && v->e[i].is_ok() && a.v.imag() == 0) {
                const V& q = v->e[i];
                ww = a.v.real();
                if (ft[i] == INT) tt = a.err == 0 && q.err == 0 ? 0.25 : -1;
                else tt = ref::K * (a.err + q.err) + 1e-11 * (1e-3 + std::abs(ww));
                if (ft[i] != INT && tt > 1e-3 * (1e-3 + std::abs(ww))) tt = -1;
                any = any || tt >= 0;
              }
              w[p].push_back(ww), t[p].push_back(tt);
            }
          }
          if (!any) w[p].clear(), t[p].clear();
          else ++npoint;
        }
        auto put = [&](const std::string& variant, const std::string& text, bool spans, const std::string& opts = "") {
          std::string norm = text;  // a function with the same text is not repeated
          for (std::size_t q; (q = norm.find(fname)) != std::string::npos;) norm.replace(q, fname.size(), "#");
          if (!texts.insert(norm + opts).second) return;
          std::string u = text;
          const std::string un = fname + variant;
          for (std::size_t q = u.find(fname); q != std::string::npos; q = u.find(fname, q + un.size())) u.replace(q, fname.size(), un);
          ++nvar;
          dr.emit(me, (ternaries ? "b" : "t") + variant, key, u, un, b, pts, w, t, spans, opts);
        };
        if (lang == "cpp") {
          put("s", span(f), true);
          put("e", eigen(f), false);
        } else if (lang == "rust") {
          put("r", rust(f), true);
        } else {
          using P = wf::python_generator_target;
          using W = wf::python_generator_float_width;
          const bool full = key[0] == 'C' || key[0] == 'D';
          auto py = [&](const std::string& v, P tg, W w2, int indent, bool oa, const std::string& o) {
            try {
              put(v, wf::python_code_generator(tg, w2, indent, oa)(f), false, o);
            } catch (const wf::type_error&) {
              // scalar and struct output arguments are not supported with use_output_arguments
              bool unsupported = false;
              for (const Output& q : b.outs) unsupported = unsupported || (q.key.usage != wf::expression_usage::return_value && !std::holds_alternative<wf::matrix_type>(q.type));
              if (!oa || !unsupported) throw;
              ++rejected;
            }
          };
          if (ternaries || full || key[0] == 'B' || me % 4 == 0) py("n", P::numpy, W::float64, 2, false, "np f64");
          if (full) {
            py("o", P::numpy, W::float64, 4, true, "np f64 oa");
            py("g", P::numpy, W::float32, 1, false, "np f32");
          }
          if ((full || me % 4 == 1) && ternaries == 0) {
            py("j", P::jax, W::float64, 2, false, "jnp f64");
            py("h", P::pytorch, W::float64, 2, false, "th f64");
          }
          if (full && ternaries) {
            py("j", P::jax, W::float64, 2, false, "jnp f64");
            py("h", P::pytorch, W::float64, 2, false, "th f64");
            if (!opt.empty()) py("p", P::pytorch, W::float64, 3, true, "th f64 oa");
          }
        }
      } catch (const std::exception& x) {
        errors << me << "\t" << key << "\t" << esc(x.what()) << "\n";
      }
    }
  });
  dr.flush();
  printf("%zu %zu %zu %zu %zu\n", nfun, nvar, npoint, rejected, big_skipped);
  return 0;
}
