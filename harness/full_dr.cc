// The dr reader: scripts delivered in pieces, cut short or failing at any byte, read while memory runs out or by several
// threads at once. Operators, precedence and sections are written by the printer below and interpreted by the reference.
#include <atomic>
#include "dreal/dr/driver.h"
#include "dreal/util/logging.h"
#include "minmodel.h"
#include "readio.h"
using namespace prob;
namespace {
std::atomic<int> g_sigs{0};
void on_sig(int) { dreal::g_interrupted = true; ++g_sigs; }
constexpr int64_t DEADLINE = 60000;
struct DVar { int slot; double lo, hi; std::string name; };
struct Script {
  const Plan& p; Rng g; std::string s; std::vector<DVar> vars; std::vector<TP> as, costs; Pt w; double delta; bool minimize; std::map<int, std::string> names;
  struct End { size_t at, nv, na, nc; }; std::vector<End> ends;  // behind every statement
  Script(const Plan& pl, uint64_t seed, double d) : p(pl), g(seed), delta(d), minimize(pl.param("cost")) {}
  std::string ws() { switch (g.below(14)) { case 0: return "\n"; case 1: return "\t"; case 2: return "  "; case 3: return " # var: [0, 1] ; \" comment\n"; case 4: return "\r\n"; case 5: return "\n\n"; case 6: return "#\n"; default: return " "; } }
  std::string ows() { return g.chance(1, 3) ? ws() : ""; }
  // ---- expressions: 1 sums, 2 products, 3 signs, 4 powers, 5 the rest
  std::string lit(double m) { // not negative
    char b[64]; const bool in = m == std::floor(m); std::string r;
    switch (g.below(8)) {
      case 0: snprintf(b, sizeof b, "%.17e", m); return b;
      case 1: if (m * 1000 == std::floor(m * 1000) && m < 1e9) { snprintf(b, sizeof b, "%.0f%s", m * 1000, g.chance(1, 2) ? "e-3" : "E-3"); return b; }  // fallthrough
      case 2: if (in && m < 1e9) { snprintf(b, sizeof b, "%.0f.", m); return b; }  // fallthrough
      case 3: if (m < 1 && m > 0 && m * 100 == std::floor(m * 100)) { snprintf(b, sizeof b, "%.2f", m); return b + 1; }  // fallthrough
      case 4: if (in && m < 1e9) { snprintf(b, sizeof b, "00%.0f", m); return b; }  // fallthrough
      case 5: if (m < 1e9 && m * 4 == std::floor(m * 4)) { snprintf(b, sizeof b, "%.2fe+0", m); return b; }  // fallthrough
      default: snprintf(b, sizeof b, "%g", m); if (atof(b) != m) snprintf(b, sizeof b, "%.17g", m); return b;
    }
  }
  std::string op(const char* o) { std::string a = ows(); return a + o + ows(); }
  std::string pr(const T& t, int lvl) {
    int l = 5; std::string r;
    auto fn = [&](const char* f) { r = f + ows() + "(" + ows() + pr(*t.a, 1) + (t.b ? ows() + "," + ows() + pr(*t.b, 1) : "") + ows() + ")"; };
    auto power = [&](int n) { if (g.chance(1, 3)) { r = "pow" + ows() + "(" + ows() + pr(*t.a, 1) + op(",") + lit(n) + ")"; return; } l = 4; r = pr(*t.a, 5) + op("^") + (g.chance(1, 6) ? "(1" + op("+") + lit(n - 1) + ")" : g.chance(1, 8) ? "(-" + lit(-n + 10) + op("+") + "10)" : lit(n)); };
    switch (t.k) {
      case CST: if (t.c < 0 || (t.c == 0 && std::signbit(t.c))) { l = 3; r = "-" + ows() + lit(-t.c); } else r = lit(t.c); break;
      case VAR: r = names.at(t.i); break;
      case ADD: l = 1; r = pr(*t.a, 1) + op("+") + pr(*t.b, 2); break;
      case SUB: l = 1; r = pr(*t.a, 1) + op("-") + pr(*t.b, 2); break;
      case MUL: l = 2; r = pr(*t.a, 2) + op("*") + pr(*t.b, 3); break;
      case DIVT: l = 2; r = pr(*t.a, 2) + op("/") + pr(*t.b, 3); break;
      case NEGT: l = 3; r = "-" + ows() + pr(*t.a, 3); break;
      case SQR: if (g.chance(1, 4)) { l = 2; r = pr(*t.a, 2) + op("*") + pr(*t.a, 3); } else power(2); break;
      case FUN1: if (t.i == F_CUBE) { power(3); break; } if (t.i >= F_ASIN && t.i <= F_ATAN && g.chance(1, 2)) { static const char* o[] = {"arcsin", "arccos", "arctan"}; fn(o[t.i - F_ASIN]); break; } fn(fun_name(t.i)); break;
      case ATAN2T: fn(g.chance(1, 2) ? "atan2" : "arctan2"); break;
      case ABS: fn("abs"); break; case MIN: fn("min"); break; case MAX: fn("max"); break; case SIN: fn("sin"); break; case EXP: fn("exp"); break; case TANH: fn("tanh"); break;
      default: sim::fail("internal", "cannot print %s", text(t).c_str());
    }
    if (l < lvl || g.chance(1, 12)) r = "(" + ows() + r + ows() + ")";
    return r;
  }
  // ---- formulas: 0 implication, 1 or, 2 and, 3 not and the rest
  std::string pf(const T& t, int lvl) {
    static const char* rel[] = {"<", "<=", ">", ">=", "="}; int l = 3; std::string r;
    auto kw = [&](const char* o) { return ws() + o + ws(); };
    auto imp = [&] { return g.chance(1, 2) ? op("=>") : kw("implies"); };
    switch (t.k) {
      case REL: r = t.i == 5 ? "not" + ws() + (g.chance(1, 2) ? "(" + pr(*t.a, 1) + op("=") + pr(*t.b, 1) + ")" : pr(*t.a, 1) + op("=") + pr(*t.b, 1)) : pr(*t.a, 1) + op(rel[t.i]) + pr(*t.b, 1); break;
      case NOT: r = "not" + ws() + pf(*t.a, 3); break;
      case AND: l = 2; r = pf(*t.a, 2) + kw("and") + pf(*t.b, 3); break;
      case OR: l = 1; r = pf(*t.a, 1) + kw("or") + pf(*t.b, 2); break;
      case IMPL: l = 0; r = pf(*t.a, 1) + imp() + pf(*t.b, 0); break;
      case IFF: l = 2; r = "(" + pf(*t.a, 1) + imp() + pf(*t.b, 0) + ")" + kw("and") + "(" + pf(*t.b, 1) + imp() + pf(*t.a, 0) + ")"; break;
      default: sim::fail("internal", "cannot print %s", text(t).c_str());
    }
    if (l < lvl || g.chance(1, 10)) r = "(" + ows() + r + ows() + ")";
    return r;
  }
  TP spice(TP t) { // constants that are not representable, implications
    if (!t) return t;
    if (t->k == CST && g.chance(1, 8)) { static const double ds[] = {0.1, 0.3, 1.7, -2.2, 0.7, -0.6}; return mk(CST, nullptr, nullptr, 1, ds[g.below(6)]); }
    if (t->k == FUN1 || t->k == DIVT || t->k == ATAN2T) return t;
    auto n = std::make_shared<T>(*t); n->a = spice(t->a); n->b = spice(t->b); if (n->k == OR && g.chance(1, 4)) n->k = IMPL; return n;
  }
  TP constant(double v, int d) { // an expression of this value
    TP c = mk(CST, nullptr, nullptr, 0, v); if (d == 0 || g.chance(1, 2)) return c; const double k = double(g.range(-4, 4)) / 4; auto C = [](double x) { return mk(CST, nullptr, nullptr, 0, x); };
    switch (g.below(9)) { case 8: { static const double big[] = {4294967296.0, 2147483648.0, 3e9, 1099511627776.0}; double b = big[g.below(4)]; return g.chance(1, 2) ? mk(SUB, C(v + b), C(b)) : mk(ADD, C(v - b), C(b)); } case 0: return mk(SUB, constant(v + k, d - 1), C(k)); case 1: return mk(ADD, constant(v - k, d - 1), C(k)); case 2: return mk(DIVT, constant(v * 2, d - 1), C(2)); case 3: return mk(MUL, C(2), constant(v / 2, d - 1)); case 4: return mk(NEGT, constant(-v, d - 1)); case 5: return mk(MIN, constant(v, d - 1), C(v + 1)); case 6: return mk(MAX, C(v - 0.5), constant(v, d - 1)); default: return v >= 0 ? mk(ABS, constant(-v, d - 1)) : c; }
  }
  void stmt(const std::string& x) { s += x + ows() + ";"; ends.push_back(End{s.size(), vars.size(), as.size(), costs.size()}); s += g.chance(1, 8) ? "\n# " + std::string(size_t(g.below(30)), 'x') + "\n" : g.chance(1, 3) ? ws() : "\n"; }
  std::vector<int> slots() const { std::vector<int> r; for (auto& v : vars) r.push_back(v.slot); return r; }
  void build() {
    static const double lo[] = {-3, 0, -1, -2, 1, 0}, hi[] = {3, 2, 1, 3, 3, 0.5}; static const char* pre[] = {"x", "var_", "minx", "e", "costs.v", "notb", "X", "expo", "ctr1.", "E"};
    if (g.chance(1, 3)) s += ws(); s += "var" + ows() + ":" + ows();
    int nv = int(g.range(1, minimize ? 3 : 4));
    for (int i = 0; i < nv; ++i) {
      int d = int(g.below(6)); DVar v{i, lo[d], hi[d], std::string(pre[g.below(10)]) + std::to_string(i)}; std::string c; names[i] = v.name;
      if (g.chance(1, 10)) { v.lo = v.hi = double(g.range(-6, 6)) / 4; c = pr(*constant(v.lo, 2), 1) + ws() + v.name; } else c = "[" + ows() + pr(*constant(v.lo, 2), 1) + op(",") + pr(*constant(v.hi, 2), 1) + ows() + "]" + ows() + v.name;
      w.v[i] = v.lo + 0.25 * double(g.below(int64_t((v.hi - v.lo) * 4) + 1)); vars.push_back(v); stmt(c);
    }
    const int64_t nc = p.param("ctrs"), no = minimize ? p.param("costs", 1) : 0; const bool bad = p.param("undeclared");
    if (nc || bad) s += "ctr" + ows() + ":" + ows();
    for (int64_t i = 0; i < nc; ++i) {
      TP t; if (minimize) t = Closed{g, slots(), bool(p.param("hard")), w}.constraint(int(g.below(3))); else { Gen G(g.next(), slots(), {}, false, p.param("hard"), &w); t = spice(G.formula(int(g.below(4)))); w.undef = false; const int h = holds(*t, w); if (h != 1 && !g.chance(1, 8)) t = mk(NOT, t); }
      as.push_back(t); stmt(pf(*t, 0));
    }
    if (bad) { s += "undeclared" + op(">=") + "0" + ows() + ";\n"; return; }
    if (no) s += "cost" + ows() + ":" + ows();
    for (int64_t i = 0; i < no; ++i) { TP t = Closed{g, slots(), bool(p.param("hard")), w}.term(); costs.push_back(t); stmt(pr(*t, 1)); }
  }
  std::string state(const End& e) const { std::string r; for (size_t i = 0; i < e.nv; ++i) { char b[160]; snprintf(b, sizeof b, "%s(x%d) in [%g,%g]; ", vars[i].name.c_str(), vars[i].slot, vars[i].lo, vars[i].hi); r += b; } for (size_t i = 0; i < e.na; ++i) r += text(*as[i]) + "; "; for (size_t i = 0; i < e.nc; ++i) r += "minimize " + text(*costs[i]) + "; "; return r; }
};
// The answer to the script up to e.
void judge(const Script& sc, const Script::End& e, const std::string& out, bool models, bool complete, uint64_t seed) {
  Cur c{out}; if (!complete && c.end()) return;
  std::vector<MVar> vs; for (size_t i = 0; i < e.nv; ++i) vs.push_back(MVar{sc.vars[i].slot, 0, sc.vars[i].lo, sc.vars[i].hi});
  std::vector<TP> as(sc.as.begin(), sc.as.begin() + long(e.na)), fs(sc.costs.begin(), sc.costs.begin() + long(e.nc)); auto state = [&] { return sc.state(e) + "\n" + sc.s; };
  SIM_CHECK(!c.end(), "script", "no answer to %s", state().c_str()); std::string l = c.line();
  if (l == "unsat") {
    sim::probe("unsat"); SIM_CHECK(c.end(), "script", "printed beyond the answer: %s", out.c_str() + c.i); SIM_CHECK(fs.empty(), "script", "the answer is unsat although a minimum exists: %s", state().c_str());
    Pt pt = sc.w; Rng g(seed);
    for (int k = 0; k < 100; ++k) {
      if (k) for (auto& v : vs) if (!g.chance(1, 3)) pt.v[v.slot] = v.lo + (v.hi - v.lo) * double(g.below(17)) / 16; pt.undef = false; bool all = true; for (auto& a : as) if (holds(*a, pt) != 1) all = false;
      if (all && !pt.undef) { std::string q; for (auto& v : vs) { char b[60]; snprintf(b, sizeof b, "x%d=%.17g ", v.slot, pt.v[v.slot]); q += b; } sim::fail("script", "the answer is unsat, but %s satisfies %s", q.c_str(), state().c_str()); }
    }
    return;
  }
  SIM_CHECK(l.compare(0, 23, "delta-sat with delta = ") == 0 && std::fabs(atof(l.c_str() + 23) - sc.delta) <= 1e-5 * sc.delta, "script", "the answer reads '%s', the precision is %g", l.c_str(), sc.delta);
  sim::probe(fs.empty() ? "sat" : "sat_minimum");
  if (!models) { SIM_CHECK(c.end(), "script", "a model nobody asked for: %s", out.c_str()); return; }
  if (!complete) return;
  std::map<std::string, Iv> m; for (size_t i = 0; i < e.nv; ++i) { l = c.line(); size_t at = l.rfind(" : "); Iv iv{0, 0}; SIM_CHECK(at != std::string::npos && parse_iv(l.substr(at + 3), &iv), "script", "a model line reads '%s'", l.c_str()); SIM_CHECK(m.emplace(l.substr(0, at), iv).second, "script", "the model lists %s twice", l.c_str()); }
  Dom mid, whole; mid.delta = whole.delta = sc.delta;
  for (size_t i = 0; i < e.nv; ++i) { const DVar& v = sc.vars[i]; SIM_CHECK(m.count(v.name), "script", "the model lacks %s", v.name.c_str()); Iv iv = m[v.name]; SIM_CHECK(v.lo <= iv.l && iv.l <= iv.u && iv.u <= v.hi && iv.u - iv.l <= sc.delta + 1e-12, "script", "%s = [%.17g, %.17g] leaves its domain or is too wide: %s", v.name.c_str(), iv.l, iv.u, state().c_str()); double x = iv.l + (iv.u - iv.l) / 2; mid.v[v.slot] = Iv{x, x}; whole.v[v.slot] = iv; }
  for (auto& a : as) SIM_CHECK(weak(*a, mid).t, "script", "the model %s does not satisfy %s weakened by %g: %s", out.c_str(), text(*a).c_str(), sc.delta, state().c_str());
  for (auto& f : fs) { l = c.line(); size_t at = l.rfind(" is "); SIM_CHECK(l.compare(0, 18, "Found minimum for ") == 0 && at != std::string::npos, "script", "instead of a minimum: '%s'", l.c_str()); double v = atof(l.c_str() + at + 4); Iv iv = ival(*f, whole); double tol = 1e-5 * (1 + std::fabs(v)); SIM_CHECK(iv.l - tol <= v && v <= iv.u + tol, "script", "the minimum of %s is said to be %.9g, over the model it is in [%.9g, %.9g]: %s", text(*f).c_str(), v, iv.l, iv.u, state().c_str()); }
  SIM_CHECK(c.end(), "script", "printed beyond the answer: %s", out.c_str() + c.i);
  if (!fs.empty()) { Goal x{fs, vs, as}; if (no_better({x}, whole, sc.w, seed, "script", state)) sim::probe("compared"); }
}
Config config(const Plan& p, double delta) { Config f; f.mutable_precision() = delta; f.mutable_produce_models() = p.param("models"); if (p.param("jobs", 1) > 1) f.mutable_number_of_jobs() = int(p.param("jobs", 1)); return f; }
void run_dr(const Plan& p) {
  static const double pr[] = {0.001, 0.01, 0.05, 0.125}; const double delta = pr[p.param("precision", 1) & 3];
  const int n = int(p.param("threads", 1)); const uint64_t ps = uint64_t(p.param("pseed")); const bool models = p.param("models");
  { Quiet q; (void)dreal::log(); }
  std::unique_ptr<dreal::SignalHandlerGuard> sg; { Quiet q; sg.reset(new dreal::SignalHandlerGuard(SIGINT, on_sig, &dreal::g_interrupted)); }
  std::vector<std::unique_ptr<Script>> sc; { Quiet q; sim::HarnessScope hs; for (int i = 0; i < n; ++i) { sc.emplace_back(new Script(p, ps + uint64_t(i), delta)); sc.back()->build(); } }
  if (getenv("SHOW_SCRIPT")) for (auto& x : sc) fprintf(stderr, "-----\n%s\n-----\n", x->s.c_str());
  std::streambuf* old_err = std::cerr.rdbuf(nullptr);
  sim::alloc_faults_up_to(8192);
  if (n == 1) {
    Script& s = *sc[0]; std::string in = s.s; size_t cut = in.size(); if (p.param("cut", -1) >= 0) { cut = size_t(p.param("cut")) % (in.size() + 1); in.resize(cut); }
    // well formed: nothing but white space behind a statement
    const Script::End* end = nullptr; for (auto& e : s.ends) if (e.at <= cut) end = &e;
    if (end) { bool comment = false; for (size_t i = end->at; i < cut; ++i) { char ch = in[i]; if (ch == '#') comment = true; if (comment) { if (ch == '\n') comment = false; continue; } if (!isspace(static_cast<unsigned char>(ch))) { end = nullptr; break; } } }
    bool ret = false; std::string what; Out r = OK; const int mode = int(p.param("mode")); const bool ioerr = p.param("ioerr"); Capture cap; std::string out;
    sim::at_exit([&](int code) { Quiet q; sim::HarnessScope hs; out = cap.take(); SIM_CHECK(code == 2 && ioerr && sim::faults_fired() > 0, "script", "reading the script ends the process with status %d", code); sim::probe("read_error_exit"); SIM_CHECK(out.empty(), "script", "a script that could not be read is answered: %s", out.c_str()); });
    { std::unique_ptr<dreal::DrDriver> d; r = sut([&] { d.reset(new dreal::DrDriver(Context(config(p, delta)))); }, &what);
      if (d) {
        if (mode == 0) r = sut([&] { ret = d->parse_string(in); }, &what);
        else if (mode == 1) { Pieces pb(in, p.param("piece", 1), ps); std::istream is(&pb); r = sut([&] { ret = d->parse_stream(is); }, &what); }
        else { int fd; std::string fn = memory_file(in, &fd); r = sut([&] { ret = d->parse_file(fn); }, &what); close(fd); }
      }
      { Quiet q; d.reset(); } }
    sim::at_exit(nullptr); Quiet q; sim::HarnessScope hs; out = cap.take(); std::cerr.rdbuf(old_err); std::cerr.clear(); std::cout.clear();
    const bool intr = r == OTHER && what.find("KeyboardInterrupt") != std::string::npos; if (intr) sim::probe("interrupted");
    const bool faulty = sim::faults_fired() > uint64_t(g_sigs.load());
    const bool cutnum = r == OTHER && !intr && p.param("cut", -1) >= 0 && !end;  // the cut made another number, outside of a function's domain
    SIM_CHECK(r == OK || intr || cutnum || (faulty && r != OTHER), "script", "reading the script fails: %s\n%s", what.c_str(), in.c_str());
    SIM_CHECK(!ioerr || !faulty_read() || !ret, "script", "a script that could not be read is reported as read");
    if (p.param("allocs") && faulty) { sim::note(uint64_t(r)); sim::probe("failed_midway"); return; }
    if (ioerr && faulty_read()) { SIM_CHECK(out.empty(), "script", "a script that could not be read is answered: %s", out.c_str()); return; }
    if (intr) { if (end) judge(s, *end, out, models, false, ps); return; }
    SIM_CHECK(ret == (end != nullptr), "script", "reading %s says %d for a script that %s:\n%s", mode == 0 ? "a string" : mode == 1 ? "a stream" : "a file", ret, end ? "is well formed" : "ends in the middle of a statement or has errors", in.c_str());
    if (end) judge(s, *end, out, models, true, ps); else { SIM_CHECK(out.empty(), "script", "a script that is not well formed is answered: %s\n%s", out.c_str(), in.c_str()); sim::probe("rejected"); }
    if (p.param("jobs", 1) <= 1) sim::note(out); else SIM_CHECK(sim::live_threads() == 0, "thread-leak", "%d threads are left behind", sim::live_threads());
    return;
  }
  PerThread pt; std::streambuf* old = std::cout.rdbuf(&pt); std::vector<Out> rs(size_t(n), OK); std::vector<std::string> whats(static_cast<size_t>(n)); std::vector<int> selfs(size_t(n), 0);
  auto work = [&](int i) { selfs[size_t(i)] = sim::self(); std::unique_ptr<dreal::DrDriver> d; rs[size_t(i)] = sut([&] { d.reset(new dreal::DrDriver(Context(config(p, delta)))); if (p.param("mode") == 1) { Pieces pb(sc[size_t(i)]->s, p.param("piece", 1), ps + uint64_t(i)); std::istream is(&pb); d->parse_stream(is); } else d->parse_string(sc[size_t(i)]->s); }, &whats[size_t(i)]); d.reset(); };
  std::vector<std::thread> th; { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
  work(0); for (auto& t : th) t.join();
  std::cout.rdbuf(old); std::cerr.rdbuf(old_err); std::cerr.clear();
  for (int i = 0; i < n; ++i) { const bool intr = rs[size_t(i)] == OTHER && whats[size_t(i)].find("KeyboardInterrupt") != std::string::npos; SIM_CHECK(rs[size_t(i)] == OK || intr, "script", "reader %d fails: %s\n%s", i, whats[size_t(i)].c_str(), sc[size_t(i)]->s.c_str()); sim::HarnessScope hs; judge(*sc[size_t(i)], sc[size_t(i)]->ends.back(), pt.out[selfs[size_t(i)] & 63], models, !intr, ps + uint64_t(i)); }
}
void gen_dr(Rng& g, Plan& p, int tier) {
  p.mode = 0; p.params["pseed"] = g.below(1 << 30); p.params["precision"] = g.below(4); p.params["hard"] = g.chance(1, 2); p.params["models"] = g.chance(5, 6); p.params["cost"] = g.chance(1, 3); p.params["costs"] = g.chance(1, 4) ? 2 : 1; p.params["ctrs"] = g.chance(1, 12) ? 0 : g.range(1, p.params["cost"] ? 4 : tier ? 9 : 6); p.params["undeclared"] = g.chance(1, 25);
  p.params["mode"] = g.below(3); p.params["piece"] = log_uniform(g, 1, 200);
  p.faults.push_back(Fault{sim::F_SIGINT, p.params["cost"] ? DEADLINE * 2 : DEADLINE, 0, 0});
  switch (g.below(8)) {
    case 0: case 1: p.params["cut"] = g.below(1 << 20); break;
    case 2: p.params["ioerr"] = 1; if (p.params["mode"] == 1) p.faults.push_back(Fault{sim::F_THROW, log_uniform(g, 1, 100), 0, 0}); else { p.params["mode"] = 2; p.faults.push_back(Fault{sim::F_READ_ERR, g.range(1, 4), 0, 0}); p.faults.push_back(Fault{sim::F_READ_SHORT, log_uniform(g, 1, 300), 0, 0}); } break;
    case 3: p.params["mode"] = 2; p.faults.push_back(Fault{sim::F_READ_SHORT, log_uniform(g, 1, 300), 0, 0}); if (g.chance(1, 2)) p.faults.push_back(Fault{sim::F_READ_EINTR, g.range(1, 20), 0, 0}); break;
    case 4: p.params["allocs"] = 1; gen_alloc_faults(g, p, 5000, 4); break;
    case 5: if (g.chance(1, 3)) { gen_sched(g, p, 30000); p.params["jobs"] = g.range(2, 3); } break;
    default: break;
  }
}
void gen_drmulti(Rng& g, Plan& p, int tier) {
  gen_dr(g, p, tier); p.faults.clear(); for (const char* k : {"cut", "allocs", "ioerr", "jobs"}) p.params.erase(k); p.params["undeclared"] = 0; p.params["models"] = 0 /* the format of standard output is shared */; gen_sched(g, p, 30000); p.params["threads"] = g.range(2, 3); p.params["mode"] = g.below(2); p.params["hard"] = 0;
  p.faults.push_back(Fault{sim::F_SIGINT, 400000, 0, 0}); if (g.chance(1, 4)) gen_stalls(g, p, 8000, 3);
}
sim::Registrar r0({"dr", gen_dr, run_dr}), r1({"drmulti", gen_drmulti, run_dr});
}  // namespace
