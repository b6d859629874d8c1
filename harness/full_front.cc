// The SMT-LIB 2 reader: scripts delivered in pieces, cut short or failing at any byte, read while memory runs out or by
// several threads at once. The reference interprets the script's commands; the answers printed are checked against it.
#include <atomic>
#include <fstream>
#include "dreal/smt2/driver.h"
#include "dreal/util/logging.h"
#include "probmodel.h"
#include "readio.h"
using namespace prob;
namespace {
std::atomic<int> g_sigs{0};
void on_sig(int) { dreal::g_interrupted = true; ++g_sigs; }
constexpr int64_t DEADLINE = 60000;

// ------------------------------------------------------------------ scripts
struct SVar { int slot; int type; double lo, hi; std::string name; TP def; bool exact_dom; };  // type: 0 Real, 1 Int, 2 Bool, 3 Binary
struct SFun { std::string name; std::vector<int> params; std::vector<int> types; std::vector<std::string> pnames; bool boo; TP body; size_t frame; };
enum EK { E_CHECK, E_MODEL, E_VALUE, E_PREC };
struct Ev { EK k; size_t end; std::vector<SVar> vars; std::vector<TP> as; double delta; std::vector<std::pair<TP, std::string>> terms; };
TP with(const TP& t, const std::function<void(T&)>& f) { auto n = std::make_shared<T>(*t); f(*n); return n; }
TP rebuild(const TP& t, const std::function<TP(const TP&)>& f) { // bottom-up replacement
  if (!t) return t;
  TP r = f(t); if (r) return r;
  auto n = std::make_shared<T>(*t); n->a = rebuild(t->a, f); n->b = rebuild(t->b, f); n->f = rebuild(t->f, f); for (auto& x : n->args) x = rebuild(x, f); for (auto& l : n->lets) l.def = rebuild(l.def, f);
  return n;
}
void slots_in(const T& t, std::set<int>& s, bool stop_at_lets) { // variables that occur by name
  if (t.k == VAR || t.k == BV) s.insert(t.i);
  for (auto& l : t.lets) slots_in(*l.def, s, stop_at_lets);
  if (t.k == LETT && stop_at_lets) return;
  if (t.k == CALLT) { for (auto& x : t.args) slots_in(*x, s, stop_at_lets); if (!stop_at_lets && t.a) slots_in(*t.a, s, false); return; }
  for (auto* x : {&t.a, &t.b, &t.f}) if (*x) slots_in(**x, s, stop_at_lets);
}
struct Script {
  Rng g; std::string s; std::vector<Ev> evs; std::vector<SVar> vars; std::vector<TP> as; std::vector<SFun> funs;
  struct Fr { size_t nv, na, nf; }; std::vector<Fr> fr; Pt w; int next{0}, nextlet{0}, nextq{1000}; double delta; bool compliant, models; const Plan& p; std::map<int, std::string> names; bool dirty{true}; double cmdline;
  std::vector<size_t> ends;  // offsets just behind every command
  Script(const Plan& pl, uint64_t seed, double d, bool from_cmdline, bool quiet) : g(seed), delta(d), compliant(quiet), models(false), p(pl), cmdline(from_cmdline ? d : 0) { if (quiet) cmd("(set-option :smtlib2-compliant true)"); }
  std::string ws() { switch (g.below(14)) { case 0: return "\n"; case 1: return "\t"; case 2: return "  "; case 3: return " ;a comment ( \" | \n"; case 4: return "\r\n"; default: return " "; } }
  std::string ows() { return g.chance(1, 8) ? ws() : ""; }
  void cmd(const std::string& c) { s += c; ends.push_back(s.size()); s += g.chance(1, 10) ? "\n;; " + std::string(size_t(g.below(30)), 'x') + "\n" : g.chance(1, 6) ? ws() : "\n"; }
  std::string lp() { return "(" + ows(); }
  std::string rp() { return ows() + ")"; }
  // ---- numerals
  std::string lit(double v) {
    char b[64]; double m = std::fabs(v); std::string r;
    const bool in = m == std::floor(m);
    switch (g.below(8)) {
      case 0: snprintf(b, sizeof b, "%a", m); r = b; break;
      case 1: snprintf(b, sizeof b, "%.17e", m); r = b; break;
      case 2: if (m * 1000 == std::floor(m * 1000)) { snprintf(b, sizeof b, "%.0f%s", m * 1000, "e-3"); r = b; break; }  // fallthrough
      case 3: if (in) { snprintf(b, sizeof b, "%.0f.", m); r = b; break; }  // fallthrough
      case 4: if (m < 1 && m > 0 && m * 100 == std::floor(m * 100)) { snprintf(b, sizeof b, "%.2f", m); r = b + 1; break; }  // fallthrough
      case 5: if (!in && m * 4 == std::floor(m * 4) && g.chance(1, 2)) { snprintf(b, sizeof b, "(/ %.0f 4)", m * 4); r = b; break; }  // fallthrough
      default: snprintf(b, sizeof b, "%g", m); if (atof(b) != m) snprintf(b, sizeof b, "%.17g", m); r = b; break;
    }
    if (v < 0) r = r[0] == '(' || g.chance(1, 2) ? "(-" + ws() + r + ")" : "-" + r; else if (r[0] != '(' && g.chance(1, 12)) r = "+" + r;
    return r;
  }
  std::string raw(double v) { char b[64]; snprintf(b, sizeof b, "%.2f", std::fabs(v)); if (atof(b) != std::fabs(v)) snprintf(b, sizeof b, "%.17g", std::fabs(v)); return v < 0 ? "(- " + std::string(b) + ")" : std::string(b); }
  // ---- terms
  std::string nary(const char* op, const T& t, TK k, bool chain) {
    std::vector<const T*> xs; const T* c = &t;
    if (chain) { for (;;) { xs.push_back(c->b.get()); c = c->a.get(); if (c->k != k || !c->lets.empty() || g.chance(1, 4)) break; } xs.push_back(c); std::reverse(xs.begin(), xs.end()); } else xs = {t.a.get(), t.b.get()};
    std::string r = lp() + op; for (auto* x : xs) r += ws() + pr(*x); return r + rp();
  }
  std::string pr(const T& t) {
    if (!t.lets.empty()) { std::string r = lp() + "let" + ws() + lp(); for (auto& l : t.lets) r += lp() + l.name + ws() + pr(*l.def) + rp(); r += rp() + ws(); T u = t; u.lets.clear(); return r + pr(u) + rp(); }
    auto un = [&](const char* o) { return lp() + o + ws() + pr(*t.a) + rp(); };
    auto bi = [&](const char* o) { return lp() + o + ws() + pr(*t.a) + ws() + pr(*t.b) + rp(); };
    static const char* rel[] = {"<", "<=", ">", ">=", "="};
    switch (t.k) {
      case CST: return t.i ? raw(t.c) : lit(t.c);
      case VAR: case BV: return names.at(t.i);
      case LETT: return t.name;
      case CALLT: { std::string r = lp() + t.name; for (auto& x : t.args) r += ws() + pr(*x); return r + rp(); }
      case FORALLT: { std::string r = lp() + "forall" + ws() + lp(); for (auto& q : t.qs) { r += lp() + q.name + ws() + "Real" + ws() + "[" + lit(q.lo) + ws() + "," + lit(q.hi) + "]" + rp(); names[q.slot] = q.name; } r += rp() + ws() + pr(*t.a) + rp(); for (auto& q : t.qs) names.erase(q.slot); return r; }
      case ADD: return nary("+", t, ADD, true);
      case SUB: return nary("-", t, SUB, true);
      case MUL: return nary("*", t, MUL, true);
      case SQR: return g.chance(1, 2) ? lp() + (g.chance(1, 2) ? "^" : "pow") + ws() + pr(*t.a) + ws() + "2" + rp() : lp() + "*" + ws() + pr(*t.a) + ws() + pr(*t.a) + rp();
      case NEGT: return un("-");
      case ABS: return un("abs"); case SIN: return un("sin"); case EXP: return un("exp"); case TANH: return un("tanh"); case DIVT: return bi("/"); case ATAN2T: return bi(g.chance(1, 2) ? "atan2" : "arctan2");
      case FUN1: { if (t.i == F_CUBE) return lp() + (g.chance(1, 2) ? "^" : "pow") + ws() + pr(*t.a) + ws() + "3" + rp(); if (t.i >= F_ASIN && t.i <= F_ATAN && g.chance(1, 2)) { static const char* o[] = {"arcsin", "arccos", "arctan"}; return un(o[t.i - F_ASIN]); } return un(fun_name(t.i)); }
      case MIN: return bi("min"); case MAX: return bi("max");
      case ITE: case FITE: return lp() + "ite" + ws() + pr(*t.f) + ws() + pr(*t.a) + ws() + pr(*t.b) + rp();
      case REL: if (t.i == 5) return lp() + "not" + ws() + bi("=") + rp(); return bi(rel[t.i]);
      case NOT: return un("not");
      case AND: return nary("and", t, AND, true);
      case OR: return nary("or", t, OR, true);
      case XOR: return bi("xor"); case IMPL: return bi("=>"); case IFF: return bi("=");
      default: return "?";
    }
  }
  // ---- term transformations: names for subterms
  void subterms(const TP& t, std::vector<TP>& out) { if (!t) return; if (t->k != FORALLT && t->k != LETT) { out.push_back(t); if (t->k != CALLT) for (auto* x : {&t->a, &t->b, &t->f}) subterms(*x, out); } }
  std::string fresh_let(const std::set<int>& body) { // possibly the name of a variable the body does not mention
    if (g.chance(1, 2)) for (int k = 0; k < 3; ++k) { if (names.empty()) break; auto it = names.begin(); std::advance(it, g.below(int64_t(names.size()))); bool free = true; for (int b : body) { auto f = names.find(b); free &= f == names.end() || f->second != it->second; } if (free) return it->second; }
    return "l" + std::to_string(g.below(4));
  }
  TP add_lets(TP t, const std::set<int>* bound) { // `bound`: parameters / quantified variables, whose definitions must stay local
    std::vector<TP> subs; subterms(t, subs); if (subs.size() < 2) return t;
    auto n = std::make_shared<T>(*t); int cnt = int(g.range(1, 2)); std::vector<Bind> bs; TP cur = t;
    std::set<std::string> taken;
    for (int k = 0; k < cnt; ++k) {
      std::vector<TP> ss; subterms(cur, ss); TP d = ss[size_t(g.below(int64_t(ss.size())))]; if (d == cur || d->k == CST || dangling_outer(*d, bs)) continue;
      const int id = nextlet++; const bool byslot = d->k == VAR || d->k == BV;
      const bool boo = is_bool(*d); std::string nm = "?";
      auto rep = [&](const TP& x) -> TP { if (byslot ? (x->k == d->k && x->i == d->i) : x == d) { auto l = std::make_shared<T>(); l->k = LETT; l->a = x; l->c = id; l->i = boo ? 0 : 1; l->name = "@" + std::to_string(id); return l; } if (x->k == LETT) return x; return nullptr; };
      cur = rebuild(cur, rep); bs.push_back(Bind{id, nm, strip(d, bs)});
    }
    if (bs.empty()) return t;
    std::set<int> body; slots_in(*cur, body, true);
    for (auto& b : bs) { for (int tries = 0; tries < 20; ++tries) { b.name = tries < 10 ? fresh_let(body) : "l" + std::to_string(100 + nextlet++); if (!taken.count(b.name) && !inner_names(*cur, b.name)) break; b.name = "l" + std::to_string(200 + nextlet++); } taken.insert(b.name); }
    // names of earlier lets used inside this body stay visible unless shadowed here: the chosen names avoid them (inner_names)
    cur = rebuild(cur, [&](const TP& x) -> TP { if (x->k == LETT) { for (auto& b : bs) if (int(x->c) == b.id) return with(x, [&](T& y) { y.name = b.name; }); return x; } return nullptr; });
    (void)bound;
    return cur->lets.empty() ? with(cur, [&](T& y) { y.lets = bs; }) : t;
  }
  static TP strip(const TP& d, const std::vector<Bind>& bs) { return rebuild(d, [&](const TP& x) -> TP { if (x->k == LETT) for (auto& b : bs) if (int(x->c) == b.id) return strip(x->a, bs); return x->k == LETT ? x : nullptr; }); }
  static bool dangling(const T& t, std::set<int> in) { // refers to a let outside
    for (auto& l : t.lets) if (dangling(*l.def, in)) return true;
    for (auto& l : t.lets) in.insert(l.id);
    if (t.k == LETT) return !in.count(int(t.c));
    for (auto& x : t.args) if (dangling(*x, in)) return true;
    if (t.k == CALLT) return false;
    for (auto* x : {&t.a, &t.b, &t.f}) if (*x && dangling(**x, in)) return true;
    return false;
  }
  static bool dangling_outer(const T& t, const std::vector<Bind>& own) { std::set<int> in; for (auto& b : own) in.insert(b.id); return dangling(t, in); }
  static bool inner_names(const T& t, const std::string& nm) { if (t.k == LETT && t.name == nm) return true; for (auto& l : t.lets) if (l.name == nm || inner_names(*l.def, nm)) return true; if (t.k == LETT) return false; for (auto& x : t.args) if (inner_names(*x, nm)) return true; if (t.k == CALLT) return false; for (auto* x : {&t.a, &t.b, &t.f}) if (*x && inner_names(**x, nm)) return true; return false; }
  static bool is_bool(const T& t) { switch (t.k) { case REL: case AND: case OR: case NOT: case IFF: case BV: case XOR: case FITE: case IMPL: case FORALLT: return true; case LETT: case CALLT: return is_bool(*t.a); default: return false; } }
  TP spice(TP t) { // other ways to say the same
    return rebuild(t, [&](const TP& x) -> TP {
      if (x->k == CST && !x->i && std::fabs(x->c) < 1e6 && g.chance(1, 6)) { static const double ds[] = {0.1, 0.3, 1.7, -2.2, 0.7, -0.6}; return mk(CST, nullptr, nullptr, 1, ds[g.below(6)]); }
      if (x->k == IFF && g.chance(1, 3)) return mk(XOR, spice(x->a), spice(x->b));
      if (x->k == OR && g.chance(1, 4)) return mk(IMPL, spice(x->a), spice(x->b));
      if (x->k == AND && g.chance(1, 6)) { if (x->b->k == AND || x->b->k == OR) return mk(FITE, spice(x->b->a), spice(x->b->b), 0, 0, spice(x->a)); }
      return nullptr; });
  }
  std::vector<int> slots(bool boo) const { std::vector<int> r; for (auto& v : vars) if ((v.type == 2) == boo) r.push_back(v.slot); return r; }
  TP call(bool boo, int depth) { // an application of a defined function, or null
    std::vector<const SFun*> c; for (auto& f : funs) if (f.boo == boo) c.push_back(&f);
    if (c.empty()) return nullptr; const SFun& f = *c[size_t(g.below(int64_t(c.size())))];
    Gen G(g.next(), slots(false), slots(true), false, false, &w); std::vector<TP> args; std::map<int, TP> m;
    for (size_t i = 0; i < f.params.size(); ++i) { TP a = f.types[i] == 2 ? G.formula(depth - 1) : G.term(depth); args.push_back(a); m[f.params[i]] = a; }
    auto sub = [&](const TP& x) -> TP { if (x->k == VAR || x->k == BV) { auto it = m.find(x->i); return it == m.end() ? x : it->second; } return nullptr; };
    auto n = std::make_shared<T>(); n->k = CALLT; n->a = rebuild(f.body, sub); n->args = args; n->name = f.name; n->ite = true; return n;
  }
  TP gen_formula(int d) {
    Gen G(g.next(), slots(false), slots(true), p.param("ite"), p.param("hard"), &w);
    TP t = spice(G.formula(d));
    if (!funs.empty() && g.chance(1, 2)) { if (TP c = call(true, 2)) t = mk(g.chance(1, 2) ? OR : AND, t, c); else if (TP e = call(false, 2)) { bool unk = false; Num v = num(*e, w, unk); TP r = mk(REL, e, mk(CST, nullptr, nullptr, 0, std::floor(unk || !std::isfinite(v.v) ? 0 : v.v)), int(g.range(2, 3))); t = g.chance(1, 2) ? r : mk(OR, r, t); } }
    return t;
  }
  TP gen_forall() {
    auto ns = slots(false); ns.erase(std::remove_if(ns.begin(), ns.end(), [](int v) { return v >= FAR; }), ns.end()); if (ns.empty()) return nullptr;
    auto n = std::make_shared<T>(); n->k = FORALLT; int k = int(g.range(1, 2)); TP lin = nullptr;
    static const double lo[] = {0, -1, -0.5, 1}, hi[] = {1, 1, 0.25, 2};
    for (int i = 0; i < k; ++i) { int d = int(g.below(4)); Quant q{nextq++, "q" + std::to_string(i), lo[d], hi[d]}; n->qs.push_back(q); TP y = mk(VAR, nullptr, nullptr, q.slot); if (g.chance(1, 2)) y = mk(MUL, mk(CST, nullptr, nullptr, 0, g.chance(1, 2) ? 2 : -1), y); lin = lin ? mk(ADD, lin, y) : y; }
    TP x = mk(VAR, nullptr, nullptr, ns[size_t(g.below(int64_t(ns.size())))]); if (g.chance(1, 3)) x = mk(SUB, x, mk(VAR, nullptr, nullptr, ns[size_t(g.below(int64_t(ns.size())))]));
    if (g.chance(1, 3)) { TP q0 = mk(VAR, nullptr, nullptr, n->qs[0].slot); lin = mk(ADD, lin, mk(MUL, k > 1 && g.chance(1, 2) ? mk(VAR, nullptr, nullptr, n->qs[1].slot) : mk(VAR, nullptr, nullptr, ns[size_t(g.below(int64_t(ns.size())))]), q0)); }  // linear in each of them
    auto rel_ = [&](TP sum) {
      const int rel = int(g.below(4));
      // an extreme value at the witness, so that the formula is true or false there with some slack
      T probe = *n; probe.a = nullptr; double ext = rel < 2 ? -INF : INF; Pt q = w; corners(probe, 0, q.v, [&] { bool unk = false; double v = num(*sum, q, unk).v; ext = rel < 2 ? std::max(ext, v) : std::min(ext, v); });
      double slack = double(g.range(0, 4)) / 4; double c = rel < 2 ? ext + slack : ext - slack; c = std::floor(c * 4) / 4; if (rel < 2 && c < ext) c += 0.25; if (g.chance(1, 6)) c = rel < 2 ? c - 1.5 : c + 1.5;
      return mk(REL, sum, mk(CST, nullptr, nullptr, 0, c), rel);
    };
    auto guard = [&] { Gen G(g.next(), ns, {}, false, false, &w); return G.formula(int(g.below(2))); };
    n->a = rel_(mk(ADD, x, lin));
    if (p.param("forall") > 1) switch (g.below(6)) { case 0: n->a = mk(AND, n->a, rel_(mk(SUB, x, lin))); break; case 1: n->a = mk(OR, n->a, guard()); break; case 2: n->a = mk(IMPL, guard(), n->a); break; case 3: n->a = mk(AND, guard(), n->a); break; default: break; }
    std::map<int, std::string> saved = names; for (auto& qq : n->qs) names[qq.slot] = qq.name;
    if (p.param("letq") && n->a->k == REL && g.chance(1, 2)) { n->a = add_lets(n->a, nullptr); }
    names = saved;
    return n;
  }
  // ---- commands
  std::string new_name(int type) { static const char* pre[] = {"x", "i", "b", "z"}; std::string base = std::string(pre[type]) + std::to_string(next); switch (g.below(8)) { case 0: return "|" + base + " q|"; case 1: return base + ".v"; case 2: return "~" + base; case 3: return base + "!" ; default: return base; } }
  double witness_of(int type, double lo, double hi) { if (type >= 2) return double(g.below(2)); if (type == 1) return std::ceil(lo) + double(g.below(int64_t(std::floor(hi) - std::ceil(lo)) + 1)); return lo + 0.25 * double(g.below(int64_t((hi - lo) * 4) + 1)); }
  void declare() {
    if (vars.size() >= 5) return;
    static const double lo[] = {-3, 0, -1, -2, 1, 0}, hi[] = {3, 2, 1, 3, 3, 0.5}; static const char* sn[] = {"Real", "Int", "Bool", "Binary"};
    int k = int(g.below(9)); int type = k < 5 ? 0 : k == 5 ? 1 : k == 6 ? 3 : 2; int d = int(g.below(5));
    SVar v{next, type, type >= 2 ? 0 : lo[d], type >= 2 ? 1 : hi[d], "", nullptr, true}; v.name = new_name(type); ++next;
    bool far = false; if (type == 1 && g.chance(1, 3)) { v.slot += FAR * int(g.range(1, 7)); v.lo += far_off(v.slot); v.hi += far_off(v.slot); far = true; }
    // a name popped earlier may be declared again
    if (!popped.empty() && g.chance(1, 2)) { std::string nm = popped[size_t(g.below(int64_t(popped.size())))]; bool used = false; for (auto& x : vars) used |= x.name == nm; for (auto& f : funs) used |= f.name == nm; if (!used) v.name = nm; }
    w.v[v.slot] = witness_of(type, v.lo, v.hi); names[v.slot] = v.name;
    const bool fun = g.chance(1, 2); std::string c = lp() + (fun ? "declare-fun" : "declare-const") + ws() + v.name + ws() + (fun ? "()" + ws() : "") + sn[type];
    if (type < 2 && (g.chance(2, 3) || far)) { c += ws() + "[" + lit(v.lo) + ows() + "," + ows() + lit(v.hi) + "]"; cmd(c + rp()); vars.push_back(v); }
    else if (type < 2) { cmd(c + rp()); v.exact_dom = false; vars.push_back(v); 
      TP x = mk(VAR, nullptr, nullptr, v.slot), l = mk(CST, nullptr, nullptr, 0, v.lo), u = mk(CST, nullptr, nullptr, 0, v.hi);
      TP a = g.chance(1, 2) ? mk(REL, l, x, 1) : mk(REL, x, l, 3), b = g.chance(1, 2) ? mk(REL, x, u, 1) : mk(REL, u, x, 3);
      if (g.chance(1, 2)) assert_(mk(AND, a, b)); else { assert_(a); assert_(b); } }
    else { cmd(c + rp()); vars.push_back(v); }
    dirty = true;
  }
  std::vector<std::string> popped;
  void assert_(const TP& t) { cmd(lp() + "assert" + ws() + pr(*t) + rp()); as.push_back(t); dirty = true; }
  void do_assert() {
    if (vars.empty()) return;
    if (p.param("forall") && g.chance(1, p.param("forall") > 1 ? 2 : 3)) { if (TP q = gen_forall()) { assert_(q); return; } }
    TP t = gen_formula(int(g.below(4))); const int h = holds(*t, w); if (h != 1 && !g.chance(1, 8)) t = mk(NOT, t);
    if (p.param("let") && g.chance(1, 2)) { if (g.chance(1, 2) && t->k == NOT && t->a) { TP in = add_lets(t->a, nullptr); t = mk(NOT, in); } else if (g.chance(1, 2) && t->a && t->b && (t->k == AND || t->k == OR || t->k == REL)) { t = with(t, [&](T& y) { y.b = add_lets(y.b, nullptr); }); } t = add_lets(t, nullptr); }
    assert_(t);
  }
  void define_const() {
    if (vars.size() >= 6 || slots(false).empty()) return;
    const bool boo = g.chance(1, 3); Gen G(g.next(), slots(false), slots(true), p.param("ite"), false, &w); TP d = spice(boo ? G.formula(2) : G.term(2)); if (p.param("let") && g.chance(1, 3)) d = add_lets(d, nullptr);
    bool unk = false; Num n{0, true}; if (!boo) n = num(*d, w, unk); const double val = boo ? double(holds(*d, w)) : n.v; if (unk || (boo && val == 2) || !(std::fabs(val) <= 1e5)) return;
    SVar v{next, boo ? 2 : 0, boo ? 0 : -INF, boo ? 1 : INF, "", d, true}; v.name = new_name(boo ? 2 : 0); ++next; 
    cmd(lp() + "define-fun" + ws() + v.name + ws() + "()" + ws() + (boo ? "Bool" : "Real") + ws() + pr(*d) + rp());
    w.v[v.slot] = val; if (!n.exact) w.inexact.insert(v.slot); names[v.slot] = v.name; vars.push_back(v);
    as.push_back(boo ? mk(IFF, mk(BV, nullptr, nullptr, v.slot), d) : mk(REL, mk(VAR, nullptr, nullptr, v.slot), d, 4)); dirty = true;
  }
  void define_fun() {
    if (funs.size() >= 3) return;
    SFun f; f.boo = g.chance(1, 3); f.name = "f" + std::to_string(next++); f.frame = fr.size(); int n = int(g.range(1, 3)); std::vector<int> num_, boo_; std::map<int, std::string> saved = names;
    for (int i = 0; i < n; ++i) { int sl = nextq++; int ty = g.chance(1, 5) ? 2 : 0; f.params.push_back(sl); f.types.push_back(ty); std::string nm = "p" + std::to_string(i); if (!vars.empty() && g.chance(1, 3)) { nm = vars[size_t(g.below(int64_t(vars.size())))].name; for (auto& o : f.pnames) if (o == nm) nm = "p" + std::to_string(i); } f.pnames.push_back(nm); (ty == 2 ? boo_ : num_).push_back(sl); w.v[sl] = 0; }
    std::set<std::string> pn(f.pnames.begin(), f.pnames.end());
    if (g.chance(1, 2)) for (auto& v : vars) if (!pn.count(v.name)) (v.type == 2 ? boo_ : num_).push_back(v.slot);  // globals
    for (size_t i = 0; i < f.params.size(); ++i) { for (auto it = names.begin(); it != names.end();) if (it->second == f.pnames[i]) it = names.erase(it); else ++it; names[f.params[i]] = f.pnames[i]; }
    if (num_.empty() && boo_.empty()) { names = saved; return; }
    Gen G(g.next(), num_, boo_, false, p.param("hard"), nullptr); f.body = spice(f.boo ? G.formula(2) : G.term(3)); if (p.param("letf") && g.chance(1, 2)) f.body = add_lets(f.body, nullptr);
    std::string c = lp() + "define-fun" + ws() + f.name + ws() + lp(); for (size_t i = 0; i < f.params.size(); ++i) c += lp() + f.pnames[i] + ws() + (f.types[i] == 2 ? "Bool" : "Real") + rp() + ows();
    cmd(c + rp() + ws() + (f.boo ? "Bool" : "Real") + ws() + pr(*f.body) + rp()); names = saved; funs.push_back(f);
  }
  void push() { if (fr.size() >= 4) return; int k = int(g.range(1, 2)); cmd(lp() + "push" + ws() + std::to_string(k) + rp()); while (k--) fr.push_back(Fr{vars.size(), as.size(), funs.size()}); }
  void pop() { if (fr.empty()) return; int k = fr.size() >= 2 && g.chance(1, 3) ? 2 : 1; cmd(lp() + "pop" + ws() + std::to_string(k) + rp());
    while (k--) { Fr f = fr.back(); fr.pop_back(); while (vars.size() > f.nv) { popped.push_back(vars.back().name); names.erase(vars.back().slot); vars.pop_back(); } as.resize(f.na); funs.resize(f.nf); } dirty = true; }
  void ev(EK k) { Ev e; e.k = k; e.end = ends.back(); e.vars = vars; e.as = as; e.delta = delta; evs.push_back(e); }
  void check() { cmd(lp() + "check-sat" + rp()); ev(E_CHECK); mdl(); dirty = false; if (g.chance(1, p.param("forall") ? 3 : 10)) { precision(); cmd(lp() + "check-sat" + rp()); ev(E_CHECK); mdl(); dirty = false; } }
  void precision() { static const double pr_[] = {0.001, 0.01, 0.05, 0.125, 0.03, 1.5}; double d = pr_[g.below(6)]; char b[40]; snprintf(b, sizeof b, "%g", d); cmd(lp() + "set-option" + ws() + ":precision" + ws() + b + rp()); if (!cmdline) delta = d; dirty = true; prec = b; }
  void get_model() { if (dirty || compliant) return; cmd(lp() + "get-model" + rp()); ev(E_MODEL); }
  void get_value() { if (dirty || compliant || vars.empty()) return;
    std::vector<std::pair<TP, std::string>> ts; std::string c = lp() + "get-value" + ws() + lp(); int n = int(g.range(1, 3));
    for (int i = 0; i < n; ++i) { TP t; auto& v = vars[size_t(g.below(int64_t(vars.size())))]; if (v.type == 2) t = mk(BV, nullptr, nullptr, v.slot); else if (g.chance(1, 2)) t = mk(VAR, nullptr, nullptr, v.slot); else { Gen G(g.next(), slots(false), {}, false, p.param("hard"), nullptr); t = G.term(2); } ts.push_back({t, ""}); c += pr(*t) + ws(); }
    cmd(c + rp() + rp()); ev(E_VALUE); evs.back().terms = ts; }
  void option() { switch (g.below(7)) {
      case 0: precision(); break;
      case 1: cmd(lp() + "set-option" + ws() + ":polytope" + ws() + (g.chance(1, 2) ? "true" : "false") + rp()); break;
      case 2: cmd(lp() + "set-option" + ws() + ":worklist-fixpoint" + ws() + (g.chance(1, 2) ? "true" : "false") + rp()); break;
      case 3: if (!compliant) { bool b = g.chance(1, 2); cmd(lp() + "set-option" + ws() + ":produce-models" + ws() + (b ? "true" : "false") + rp()); models = b; } break;
      case 4: cmd(g.chance(1, 2) ? "(set-info :source |a quoted\n\n text (with parentheses)|)" : "(set-info :status \"a \"\"string\"\" ; no comment\n\")"); break;
      case 5: cmd(g.chance(1, 2) ? "(set-logic QF_NRA)" : "(set-logic ALL)"); break;
      default: if (!compliant && !prec.empty()) { cmd(lp() + "get-option" + ws() + ":precision" + rp()); ev(E_PREC); evs.back().delta = atof(prec.c_str()); } break;
    } }
  std::string prec;
  void build(const Plan& pl, int who, int n) {
    int k = 0; for (auto& o : pl.ops) { if ((k++) % n != who) continue; g = Rng(uint64_t(o.a) * 1000003u + uint64_t(o.b));
      switch (o.k) { case 0: declare(); break; case 1: do_assert(); break; case 2: push(); break; case 3: pop(); break; case 4: check(); break; case 5: define_const(); break; case 6: define_fun(); break; case 7: option(); break; case 8: get_model(); break; default: get_value(); break; } }
    check(); if (g.chance(1, 2)) get_model();
    if (g.chance(1, 4)) { cmd("(exit)"); if (g.chance(1, 2)) { s += "(check-sat) ( this is not read"; } exited = true; }
  }
  void mdl() { evm[evs.size() - 1] = models; }
  std::map<size_t, bool> evm; bool exited{false};
};
// (/ (- 1) 2), (- 3), 5
long double ratl(const char*& c) { while (*c == ' ') ++c; if (!strncmp(c, "inf", 3)) { c += 3; return INF; } if (*c != '(') { char* e; long double v = strtold(c, &e); c = e; return v; } ++c; char op = *c++; long double a = ratl(c), r = -a; if (op == '/') { long double b = ratl(c); r = a / b; } while (*c == ' ') ++c; if (*c == ')') ++c; return r; }
double rat(const char*& c) { return double(ratl(c)); }
std::string state(const Ev& e) { std::string s; for (auto& v : e.vars) { char b[160]; snprintf(b, sizeof b, "%s(%d) in [%g,%g]; ", v.name.c_str(), v.slot, v.lo, v.hi); s += b; } for (auto& a : e.as) s += text(*a) + "; "; return s; }
using Model = std::map<std::string, Iv>;
void refute(const Ev& e, const Pt& w, uint64_t seed) {
  Pt pt = w; Rng g(seed);
  for (int k = 0; k < 100; ++k) {
    bool skip = false;
    for (auto& v : e.vars) {
      double x; const double wv = w.v.at(v.slot);
      if (v.def) { if (v.type == 2) { int h = holds(*v.def, pt); if (h == 2) { skip = true; break; } x = h; } else { bool unk = false; Num n = num(*v.def, pt, unk); x = n.v; if (unk) { skip = true; break; } if (n.exact) pt.inexact.erase(v.slot); else pt.inexact.insert(v.slot); } }
      else if (k == 0 || (k < 50 && g.chance(1, 2))) x = wv; else if (v.type >= 2) x = double(g.below(2)); else if (v.type == 1) x = std::ceil(v.lo) + double(g.below(int64_t(std::floor(v.hi) - std::ceil(v.lo)) + 1)); else x = v.lo + (v.hi - v.lo) * double(g.below(17)) / 16;
      pt.v[v.slot] = x;
    }
    if (skip) continue;
    bool all = true; pt.undef = false; for (auto& a : e.as) { bool isdef = false; for (auto& v : e.vars) if (v.def && a->b == v.def) isdef = true; if (!isdef && holds(*a, pt) != 1) { all = false; break; } }
    if (all && !pt.undef) { std::string s; for (auto& v : e.vars) { char b[100]; snprintf(b, sizeof b, "%s=%.17g ", v.name.c_str(), pt.v[v.slot]); s += b; } sim::fail("script", "the answer is unsat, but %s satisfies %s", s.c_str(), state(e).c_str()); }
  }
}
void verify(const Ev& e, const Model& m) {
  Dom d; d.delta = e.delta; std::set<std::string> want; for (auto& v : e.vars) want.insert(v.name);
  for (auto& x : m) SIM_CHECK(want.count(x.first), "script", "the model has %s, which is not in scope: %s", x.first.c_str(), state(e).c_str());
  SIM_CHECK(want.size() == m.size(), "script", "the model has %zu variables, in scope are %zu: %s", m.size(), want.size(), state(e).c_str());
  for (auto& v : e.vars) {
    Iv iv = m.at(v.name); const double tol = v.exact_dom ? 0 : e.delta + 1e-9;
    SIM_CHECK(v.lo - tol <= iv.l && iv.l <= iv.u && iv.u <= v.hi + tol, "script", "%s = [%.17g, %.17g] leaves its domain: %s", v.name.c_str(), iv.l, iv.u, state(e).c_str());
    SIM_CHECK(iv.u - iv.l <= e.delta + 1e-12, "script", "%s = [%.17g, %.17g] is wider than the precision %g", v.name.c_str(), iv.l, iv.u, e.delta);
    if (v.type) SIM_CHECK(iv.l == iv.u && iv.l == std::floor(iv.l), "script", "%s = [%.17g, %.17g] is not an integer", v.name.c_str(), iv.l, iv.u);
    double mid = iv.l + (iv.u - iv.l) / 2; d.v[v.slot] = Iv{mid, mid};
  }
  for (auto& a : e.as) if (!weak(*a, d).t) { std::string s; for (auto& x : m) { char b[100]; snprintf(b, sizeof b, "%s=[%.17g,%.17g] ", x.first.c_str(), x.second.l, x.second.u); s += b; } sim::fail("script", "the model %s does not satisfy %s weakened by %g; all: %s", s.c_str(), text(*a).c_str(), e.delta, state(e).c_str()); }
}
Model read_box(Cur& c, const Ev& e) { // one line per variable: name : value
  Model m; for (size_t i = 0; i < e.vars.size(); ++i) { std::string l = c.line(); size_t at = l.rfind(" : "); SIM_CHECK(at != std::string::npos, "script", "a model line reads '%s'", l.c_str()); std::string nm = l.substr(0, at), v = l.substr(at + 3); Iv iv{0, 0}; if (v == "True") iv = Iv{1, 1}; else if (v == "False") iv = Iv{0, 0}; else SIM_CHECK(parse_iv(v, &iv), "script", "a model line reads '%s'", l.c_str()); SIM_CHECK(m.emplace(nm, iv).second, "script", "the model lists %s twice", nm.c_str()); } return m;
}
Model read_model(Cur& c, const Ev& e) {
  Model m; for (;;) { SIM_CHECK(!c.end(), "script", "a model is not closed"); std::string l = c.line(); if (l == ")") break; SIM_CHECK(l.compare(0, 14, "  (define-fun ") == 0 && l.back() == ')', "script", "a model line reads '%s'", l.c_str()); size_t at = l.find(" () "); SIM_CHECK(at != std::string::npos, "script", "a model line reads '%s'", l.c_str()); std::string nm = l.substr(14, at - 14), r = l.substr(at + 4); size_t sp = r.find(' '); std::string so = r.substr(0, sp), v = r.substr(sp + 1); v.pop_back();
    Iv iv{0, 0}; if (v == "true") iv = Iv{1, 1}; else if (v == "false") iv = Iv{0, 0}; else SIM_CHECK(parse_iv(v, &iv), "script", "a model line reads '%s'", l.c_str());
    static const char* sn[] = {"Real", "Int", "Bool", "Binary"}; for (auto& x : e.vars) if (x.name == nm) SIM_CHECK(so == sn[x.type], "script", "the model gives %s sort %s: %s", nm.c_str(), so.c_str(), state(e).c_str());
    SIM_CHECK(m.emplace(nm, iv).second, "script", "the model lists %s twice", nm.c_str()); }
  return m;
}
// What was printed answers the first events of the script, in order; `must`: at least so many.
void judge(const Script& sc, const std::string& out, size_t must, bool complete_lines, uint64_t seed) {
  Cur c{out}; bool sat = false; Model last; bool have = false; size_t k = 0;
  for (; k < sc.evs.size(); ++k) {
    const Ev& e = sc.evs[k]; if (c.end()) break;
    if (!complete_lines && out.find('\n', c.i) == std::string::npos) break;  // cut in the middle by a failure
    switch (e.k) {
      case E_CHECK: { std::string l = c.line(); have = false;
        if (l == "unsat") { sat = false; sim::probe("unsat"); refute(e, sc.w, seed + k); }
        else if (l.compare(0, 9, "delta-sat") == 0) { sat = true; sim::probe("sat");
          if (sc.compliant) SIM_CHECK(l == "delta-sat", "script", "the answer reads '%s'", l.c_str());
          else { SIM_CHECK(l.compare(0, 23, "delta-sat with delta = ") == 0 && std::fabs(atof(l.c_str() + 23) - e.delta) <= 1e-5 * e.delta, "script", "the answer reads '%s', the precision is %g", l.c_str(), e.delta);
            auto it = sc.evm.find(k); if (it != sc.evm.end() && it->second) { last = read_box(c, e); have = true; if (!e.vars.empty()) verify(e, last); else c.line(); } } }
        else sim::fail("script", "the answer to check-sat reads '%s'", l.c_str());
        break; }
      case E_MODEL: { std::string l = c.line(); if (l == "(error \"model is not available\")") SIM_CHECK(!sat || e.vars.empty(), "script", "no model after a delta-sat answer"); else { SIM_CHECK(l == "(model" && sat, "script", "get-model answers '%s' after %s", l.c_str(), sat ? "delta-sat" : "unsat"); Model m = read_model(c, e); verify(e, m); if (have) for (auto& x : m) SIM_CHECK(x.second.l == last[x.first].l && x.second.u == last[x.first].u, "script", "get-model and the answer to check-sat differ in %s", x.first.c_str()); last = m; have = true; } break; }
      case E_VALUE: { std::string l = c.line(); SIM_CHECK(l == "(", "script", "get-value answers '%s'", l.c_str());
        for (auto& t : e.terms) { if (c.end() && !complete_lines) return; l = c.line(); SIM_CHECK(l.size() > 4 && l[0] == '\t' && l[1] == '(' && l.back() == ')', "script", "get-value answers '%s' for %s", l.c_str(), text(*t.first).c_str());
          l.pop_back(); Iv iv; size_t at;
          if (t.first->k == BV) { SIM_CHECK((at = l.rfind(' ')) != std::string::npos && (l.substr(at) == " true" || l.substr(at) == " false"), "script", "get-value answers '%s'", l.c_str()); iv.l = iv.u = l.substr(at) == " true"; }
          else if (l.find("(interval empty)") != std::string::npos) continue;
          else if ((at = l.find("(interval (closed ")) != std::string::npos) { const char* q = l.c_str() + at + 18; iv.l = rat(q); const char* r = strstr(q, "(closed "); SIM_CHECK(r, "script", "get-value answers '%s'", l.c_str()); r += 8; iv.u = rat(r); }
          else { int depth = 0; size_t i = l.size(); while (i > 0) { --i; if (l[i] == ')') ++depth; if (l[i] == '(') --depth; if (depth == 0 && l[i] == ' ') { break; } if (depth < 0) break; } const char* q = l.c_str() + i + 1; iv.l = iv.u = rat(q); }
          SIM_CHECK(iv.l <= iv.u, "script", "get-value answers '%s'", l.c_str());
          if (sat && have && t.first->k == BV) { for (auto& v : e.vars) if (v.slot == t.first->i) SIM_CHECK(last[v.name].l == iv.l, "script", "get-value says %s = %g, the model says %g", v.name.c_str(), iv.l, last[v.name].l); }
          else if (sat && have) { Pt pt; for (auto& v : e.vars) pt.v[v.slot] = last[v.name].l + (last[v.name].u - last[v.name].l) / 2; bool unk = false; double x = num(*t.first, pt, unk).v; double tol = 1e-9 * (1 + std::fabs(x)); if (!unk) SIM_CHECK(iv.l - tol <= x && x <= iv.u + tol, "script", "get-value says %s is in [%.17g, %.17g], at the model's middle it is %.17g: %s", text(*t.first).c_str(), iv.l, iv.u, x, l.c_str());
            if (t.first->k == VAR) for (auto& v : e.vars) if (v.slot == t.first->i) SIM_CHECK(iv.l == last[v.name].l && iv.u == last[v.name].u, "script", "get-value says %s is in [%.17g, %.17g], the model says [%.17g, %.17g]", v.name.c_str(), iv.l, iv.u, last[v.name].l, last[v.name].u); }
        }
        if (c.end() && !complete_lines) return; l = c.line(); SIM_CHECK(l == ")", "script", "get-value ends with '%s'", l.c_str()); break; }
      case E_PREC: { std::string l = c.line(); SIM_CHECK(std::fabs(atof(l.c_str()) - e.delta) <= 1e-9, "script", "get-option :precision answers '%s', set was %g", l.c_str(), e.delta); break; }
    }
  }
  SIM_CHECK(k >= must, "script", "%zu commands that print something were read, %zu answers were printed: %s", must, k, out.c_str());
  if (complete_lines && k == sc.evs.size()) SIM_CHECK(c.end(), "script", "printed beyond the last command: %s", out.c_str() + c.i);
  sim::note(uint64_t(k));
}
Config config(const Plan& p, double delta, bool cmdline) { Config f; if (cmdline) f.mutable_precision().set_from_command_line(delta); else f.mutable_precision().set_from_file(delta); if (p.param("jobs", 1) > 1) f.mutable_number_of_jobs() = int(p.param("jobs", 1)); return f; }
void run_front(const Plan& p) {
  static const double pr[] = {0.001, 0.01, 0.05, 0.125}; const double delta = pr[p.param("precision", 1) & 3]; const bool cl = p.param("cmdline");
  const int n = int(p.param("threads", 1)); const uint64_t ps = uint64_t(p.param("pseed"));
  { Quiet q; (void)dreal::log(); }
  std::unique_ptr<dreal::SignalHandlerGuard> sg; { Quiet q; sg.reset(new dreal::SignalHandlerGuard(SIGINT, on_sig, &dreal::g_interrupted)); }
  std::vector<std::unique_ptr<Script>> sc; { Quiet q; sim::HarnessScope hs; for (int i = 0; i < n; ++i) { sc.emplace_back(new Script(p, ps + uint64_t(i), delta, cl, n > 1)); sc.back()->build(p, i, n); } }
  if (getenv("SHOW_LOG")) { dup2(open("/tmp/show.log", O_WRONLY|O_CREAT|O_TRUNC, 0644), 2); dup2(2, 1); } if (getenv("SHOW_LOG")) dreal::log()->set_level(spdlog::level::level_enum(atoi(getenv("SHOW_LOG"))));
  if (getenv("SHOW_SCRIPT")) for (auto& x : sc) fprintf(stderr, "-----\n%s\n-----\n", x->s.c_str());
  if (const char* f = getenv("SCRIPT")) { sim::HarnessScope hs; Quiet q; std::ifstream is(f); std::string t((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); dreal::Smt2Driver d{Context(config(p, delta, false))}; try { d.parse_string(t); } catch (const std::exception& e) { std::cout << e.what() << std::endl; } return; }
  std::streambuf* old_err = std::cerr.rdbuf(nullptr);
  sim::alloc_faults_up_to(8192);  // Bison's parser reserves its stack in a constructor it declares noexcept
  if (n == 1) {
    Script& s = *sc[0]; std::string in = s.s; size_t cut = in.size(); const bool iscut = p.param("cut", -1) >= 0; if (iscut) { cut = size_t(p.param("cut")) % (in.size() + 1); in.resize(cut); }
    bool ret = false; std::string what; Out r = OK; const int mode = int(p.param("mode"));
    Capture cap; std::string out; const bool ioerr = p.param("ioerr");
    // a read error ends the process with status 2 and a message; what was printed before answers a prefix of the script
    sim::at_exit([&](int code) { Quiet q; sim::HarnessScope hs; out = cap.take(); SIM_CHECK(code == 2 && ioerr && sim::faults_fired() > 0, "script", "reading the script ends the process with status %d", code); sim::probe("read_error_exit"); judge(s, out, 0, false, ps); });
    {
      std::unique_ptr<dreal::Smt2Driver> d; r = sut([&] { d.reset(new dreal::Smt2Driver(Context(config(p, delta, cl)))); }, &what);
      if (d) {
        if (mode == 0) r = sut([&] { ret = d->parse_string(in); }, &what);
        else if (mode == 1) { Pieces pb(in, p.param("piece", 1), ps); std::istream is(&pb); r = sut([&] { ret = d->parse_stream(is); }, &what); }
        else { int fd; std::string fn = memory_file(in, &fd); r = sut([&] { ret = d->parse_file(fn); }, &what); close(fd); }
      }
      { Quiet q; d.reset(); }
    }
    sim::at_exit(nullptr); Quiet q; sim::HarnessScope hs; out = cap.take(); std::cerr.rdbuf(old_err); std::cerr.clear(); std::cout.clear();
    const bool intr = r == OTHER && what.find("KeyboardInterrupt") != std::string::npos; if (intr) sim::probe("interrupted");
    const bool faulty = sim::faults_fired() > uint64_t(g_sigs.load());
    const bool cutsym = iscut && r == OTHER && !intr && cut < s.ends.back();  // the cut made another name of a sort, an option or a function
    SIM_CHECK(r == OK || intr || faulty || cutsym, "script", "reading the script fails: %s\n%s", what.c_str(), in.c_str());
    SIM_CHECK(r != OTHER || intr || cutsym, "script", "reading the script fails with: %s", what.c_str());
    const bool whole = (r == OK || cutsym) && !faulty; size_t must = 0;
    if (whole) for (auto& e : s.evs) if (e.end <= cut) ++must;
    SIM_CHECK(!ioerr || !faulty_read() || ret == false || s.exited, "script", "a script that could not be read is reported as read");
    if (p.param("allocs") && faulty) { sim::note(uint64_t(r)); sim::probe("failed_midway"); return; }  // text printed while allocations fail may be lost
    judge(s, out, must, r == OK || cutsym, ps);
    if (whole) { bool bound = s.exited && cut >= s.ends.back(); if (!bound) { size_t e = 0; for (size_t x : s.ends) if (x <= cut) e = x; bound = e > 0; bool comment = false; for (size_t i = e; i < cut; ++i) { char ch = in[i]; if (ch == ';') comment = true; if (comment) { if (ch == '\n') comment = false; continue; } if (!isspace(static_cast<unsigned char>(ch))) bound = false; } }
      SIM_CHECK(ret == bound, "script", "reading %s says %d for a script that %s:\n%s", mode == 0 ? "a string" : mode == 1 ? "a stream" : "a file", ret, bound ? "is well formed" : "ends in the middle of a command", in.c_str()); }
    sim::note(out); return;
  }
  PerThread pt; std::streambuf* old = std::cout.rdbuf(&pt); std::vector<Out> rs(size_t(n), OK); std::vector<std::string> whats(static_cast<size_t>(n)); std::vector<int> selfs(size_t(n), 0);
  auto work = [&](int i) { selfs[size_t(i)] = sim::self(); std::unique_ptr<dreal::Smt2Driver> d; { rs[size_t(i)] = sut([&] { d.reset(new dreal::Smt2Driver(Context(config(p, delta, cl)))); if (p.param("mode") == 1) { Pieces pb(sc[size_t(i)]->s, p.param("piece", 1), ps + uint64_t(i)); std::istream is(&pb); d->parse_stream(is); } else d->parse_string(sc[size_t(i)]->s); }, &whats[size_t(i)]); } d.reset(); };
  std::vector<std::thread> th; { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
  work(0); for (auto& t : th) t.join();
  std::cout.rdbuf(old); std::cerr.rdbuf(old_err); std::cerr.clear();
  for (int i = 0; i < n; ++i) { const bool intr = rs[size_t(i)] == OTHER && whats[size_t(i)].find("KeyboardInterrupt") != std::string::npos; SIM_CHECK(rs[size_t(i)] == OK || intr, "script", "reader %d fails: %s\n%s", i, whats[size_t(i)].c_str(), sc[size_t(i)]->s.c_str()); sim::HarnessScope hs; judge(*sc[size_t(i)], pt.out[selfs[size_t(i)] & 63], intr ? 0 : sc[size_t(i)]->evs.size(), !intr, ps + uint64_t(i)); }
}
void gen_front(Rng& g, Plan& p, int tier) {
  p.mode = 0; p.params["pseed"] = g.below(1 << 30); p.params["precision"] = g.below(4); p.params["cmdline"] = g.chance(1, 5); p.params["ite"] = g.chance(1, 4); p.params["hard"] = g.chance(1, 3); p.params["let"] = g.chance(1, 2); p.params["letf"] = g.chance(1, 2); p.params["letq"] = g.chance(1, 2); p.params["forall"] = g.chance(1, 4);
  static const int base[] = {5, 12, 5, 4, 6, 3, 3, 3, 3, 3}; int w[10], tot = 0; for (int i = 0; i < 10; ++i) { w[i] = base[i] * int(g.range(0, 3)); if (i == 1 || i == 4) w[i] += base[i]; tot += w[i]; }
  int n = int(g.range(3, tier ? 36 : 20)); for (int k = 0; k < 2; ++k) p.ops.push_back(Op{0, g.below(1 << 30), k, 0, 0});
  for (int i = 0; i < n; ++i) { int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++]; p.ops.push_back(Op{k, g.below(1 << 30), 7 + i, 0, 0}); }
  p.params["mode"] = g.below(3); p.params["piece"] = log_uniform(g, 1, 400);
  p.faults.push_back(Fault{sim::F_SIGINT, DEADLINE, 0, 0});
  switch (g.below(8)) {
    case 0: case 1: p.params["cut"] = g.below(1 << 20); break;
    case 2: p.params["ioerr"] = 1; if (p.params["mode"] == 1) p.faults.push_back(Fault{sim::F_THROW, log_uniform(g, 1, 300), 0, 0}); else { p.params["mode"] = 2; p.faults.push_back(Fault{sim::F_READ_ERR, g.range(1, 4), 0, 0}); p.faults.push_back(Fault{sim::F_READ_SHORT, log_uniform(g, 1, 500), 0, 0}); } break;
    case 3: p.params["mode"] = 2; p.faults.push_back(Fault{sim::F_READ_SHORT, log_uniform(g, 1, 500), 0, 0}); if (g.chance(1, 2)) p.faults.push_back(Fault{sim::F_READ_EINTR, g.range(1, 20), 0, 0}); break;
    case 4: p.params["allocs"] = 1; gen_alloc_faults(g, p, 8000, 4); break;
    default: break;
  }
}
void gen_frontmulti(Rng& g, Plan& p, int tier) {
  gen_front(g, p, tier); p.faults.clear(); p.params.erase("cut"); p.params.erase("allocs"); gen_sched(g, p, 30000); p.params["threads"] = g.range(2, 3); p.params["mode"] = g.below(2); p.params["hard"] = 0; p.params["forall"] = g.chance(1, 6);
  p.faults.push_back(Fault{sim::F_SIGINT, 400000, 0, 0}); if (g.chance(1, 4)) gen_stalls(g, p, 8000, 3);
}
// Universally quantified assertions in incremental scripts, whole input, also with several jobs.
void gen_frontall(Rng& g, Plan& p, int tier) {
  gen_front(g, p, tier); p.params["forall"] = 2; p.params["hard"] = 0; p.params.erase("cut"); p.params.erase("ioerr"); p.params.erase("allocs"); p.faults.clear(); p.params["mode"] = 0; p.faults.push_back(Fault{sim::F_SIGINT, DEADLINE, 0, 0}); if (g.chance(1, 4)) p.faults.push_back(Fault{sim::F_SIGINT, log_uniform(g, 10, 20000), 0, 0});
  if (g.chance(1, 4)) { gen_sched(g, p, 30000); p.params["jobs"] = g.range(2, 3); }
}
sim::Registrar r2({"frontall", gen_frontall, run_front});
sim::Registrar r0({"front", gen_front, run_front}), r1({"frontmulti", gen_frontmulti, run_front});
}  // namespace
