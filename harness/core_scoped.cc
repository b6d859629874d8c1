// Scoped containers: any history of insert/update/push/pop/clear/copy, with
// allocation failures at any point, against a stack-of-snapshots model.
#include "dreal/symbolic/symbolic.h"
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"
#include <sstream>
#include "hx.h"
using namespace hx;
using namespace dreal;
namespace {
// payload whose copies allocate, so that failures can hit every step
std::string val(int64_t v) { return "value-with-a-heap-buffer-" + std::to_string(v); }
struct BadHash { size_t operator()(int k) const { return size_t(k % 3); } };
struct StrBadHash { size_t operator()(const std::string& k) const { return k.empty() ? 0 : size_t(k.back() % 4); } };

enum K { INS, PUSH, POP, CLEAR, LOOK, COPY, MOVE, ASSIGN, NK };
// Assignments over an object that has contents and scopes of its own; the old object is dropped and the assigned one goes on.
// A failed copy assignment leaves the target unspecified (std containers give the basic guarantee), so it is dropped.
template <class C, class F> void assign(std::unique_ptr<C>& m, int64_t how, const F& fill) {
  std::unique_ptr<C> c; Out r = sut([&] { c.reset(new C); fill(*c); c->push(); fill(*c); });
  if (r != OK) return;
  switch (how & 3) {
    case 0: r = sut([&] { *c = *m; }); if (r == OK) { Quiet q; sut([&] { m->push(); fill(*m); }); m = std::move(c); } break;
    case 1: r = sut([&] { *c = std::move(*m); }); m = std::move(c); break;
    case 2: { C& self = *m; sut([&] { *m = self; }); break; }
    default: { C tmp(std::move(*m)); *m = std::move(tmp); break; }
  }
}

template <class Map, class Key> struct MapSys {
  using M = std::map<Key, std::string>;
  Key key(int64_t i) const;
  std::unique_ptr<Map> m; M cur; std::vector<M> st;
  void check(const char* when) {
    sim::HarnessScope hs;
    SIM_CHECK(m->size() == cur.size() && m->empty() == cur.empty(), "scoped-map", "%s: size %zu, reference model has %zu", when, size_t(m->size()), cur.size());
    M got; for (auto it = m->begin(); it != m->end(); ++it) got.emplace(it->first, it->second);
    SIM_CHECK(got == cur && size_t(std::distance(m->begin(), m->end())) == cur.size() && M(m->cbegin(), m->cend()) == cur, "scoped-map", "%s: contents differ from the reference model", when);
    for (int i = 0; i < 12; ++i) { const Key k = key(i); const size_t n = cur.count(k); SIM_CHECK(m->count(k) == n && (m->find(k) != m->end()) == (n == 1), "scoped-map", "%s: lookup differs from the reference model", when); }
    for (auto& kv : cur) {
      auto it = m->find(kv.first);
      SIM_CHECK(m->count(kv.first) == 1 && it != m->end() && it->second == kv.second && (*m)[kv.first] == kv.second, "scoped-map", "%s: lookup differs from the reference model", when);
    }
  }
};
template <> int MapSys<ScopedUnorderedMap<int, std::string, BadHash>, int>::key(int64_t i) const { return int(i); }
template <> std::string MapSys<ScopedUnorderedMap<std::string, std::string, StrBadHash>, std::string>::key(int64_t i) const { return "key-with-a-heap-buffer--" + std::to_string(i); }

template <class Map, class Key> void run_map(const Plan& p) {
  MapSys<Map, Key> s; s.m.reset(new Map);
  sim::leak_mark();
  {
  MapSys<Map, Key> s; s.m.reset(new Map);
  for (const Op& o : p.ops) {
    auto k = s.key(o.a); std::string v = val(o.b);
    switch (o.k) {
      case INS: {
        Out r = sut([&] { s.m->insert(k, v); });
        sim::HarnessScope hs;
        if (r == OK) s.cur[k] = v;
        else SIM_CHECK(r == NOMEM, "scoped-map", "insert failed with an unexpected error");
        break; }
      case PUSH: { Out r = sut([&] { s.m->push(); }); if (r == OK) { sim::HarnessScope hs; s.st.push_back(s.cur); } break; }
      case POP: {
        if (s.st.empty()) { Out r = sut([&] { s.m->pop(); }); SIM_CHECK(r == OTHER || r == NOMEM, "scoped-map", "pop without a matching push did not throw"); }
        else {
          Out r = sut([&] { s.m->pop(); });
          Quiet q;
          if (r != OK) r = sut([&] { s.m->pop(); });  // retry once memory is back
          SIM_CHECK(r == OK, "scoped-map", "pop failed");
          sim::HarnessScope hs; s.cur = s.st.back(); s.st.pop_back();
        }
        break; }
      case CLEAR: { sut([&] { s.m->clear(); }); sim::HarnessScope hs; s.cur.clear(); s.st.clear(); break; }
      case LOOK: {
        bool thrown = false;
        Quiet q;
        try { sim::SutScope sc; if ((*s.m)[k].empty()) sim::note(1); } catch (const std::runtime_error&) { thrown = true; }
        SIM_CHECK(thrown == (s.cur.count(k) == 0), "scoped-map", "operator[] throws iff the key is absent"); break; }
      case COPY: { // copies are independent snapshots carrying the scopes
        std::unique_ptr<Map> c; Out r = sut([&] { c.reset(new Map(*s.m)); });
        if (r != OK) break;
        Quiet q;
        if (o.c & 1) { auto k2 = s.key(o.a + 1); sut([&] { s.m->insert(k2, v); s.m->insert(k, v + "x"); if (!s.st.empty()) s.m->pop(); }); s.m.swap(c); }
        else { sut([&] { c->insert(k, v); c->insert(k, v + "x"); if (!s.st.empty()) c->pop(); }); }
        break; }
      case MOVE: { std::unique_ptr<Map> c; Out r = sut([&] { c.reset(new Map(std::move(*s.m))); }); if (r == OK) s.m = std::move(c); break; }
      case ASSIGN: { auto k2 = s.key(o.a + 1); assign(s.m, o.c, [&](Map& x) { x.insert(k, v + "y"); x.insert(k2, v); }); break; }
    }
    s.check("after an operation");
  }
  Quiet q;
  while (!s.st.empty()) { sut([&] { s.m->pop(); }); { sim::HarnessScope hs; s.cur = s.st.back(); s.st.pop_back(); } s.check("after the final pops"); }
  }
  { const int64_t lost = sim::leaked(); SIM_CHECK(lost == 0, "leak", "%lld blocks still allocated after destruction", (long long)lost); }
}

void run_set(const Plan& p) {
  using Set = ScopedUnorderedSet<std::string, StrBadHash>;
  using M = std::set<std::string>;
  sim::leak_mark();
  {
  std::unique_ptr<Set> m(new Set); M cur; std::vector<M> st;
  auto key = [](int64_t i) { return "key-with-a-heap-buffer--" + std::to_string(i); };
  auto check = [&](const char* when) {
    sim::HarnessScope hs;
    M got(m->begin(), m->end());
    SIM_CHECK(M(m->cbegin(), m->cend()) == cur && size_t(std::distance(m->cbegin(), m->cend())) == cur.size(), "scoped-set", "%s: iteration differs", when);
    SIM_CHECK(got == cur && m->size() == cur.size() && m->empty() == cur.empty(), "scoped-set", "%s: contents differ from the reference model", when);
    for (int i = 0; i < 12; ++i) { auto k = key(i); SIM_CHECK((m->count(k) == 1) == (cur.count(k) == 1) && (m->find(k) != m->end()) == (cur.count(k) == 1), "scoped-set", "%s: lookup differs from the reference model", when); }
  };
  for (const Op& o : p.ops) {
    auto k = key(o.a);
    switch (o.k) {
      case INS: case LOOK: { Out r = sut([&] { m->insert(k); }); sim::HarnessScope hs; if (r == OK) cur.insert(k); break; }
      case PUSH: { Out r = sut([&] { m->push(); }); if (r == OK) { sim::HarnessScope hs; st.push_back(cur); } break; }
      case POP: {
        Out r = sut([&] { m->pop(); });
        if (st.empty()) { SIM_CHECK(r == OTHER || r == NOMEM, "scoped-set", "pop without a matching push did not throw"); break; }
        Quiet q; if (r != OK) r = sut([&] { m->pop(); });
        SIM_CHECK(r == OK, "scoped-set", "pop failed");
        sim::HarnessScope hs; cur = st.back(); st.pop_back(); break; }
      case CLEAR: { sut([&] { m->clear(); }); sim::HarnessScope hs; cur.clear(); st.clear(); break; }
      case COPY: { std::unique_ptr<Set> c; Out r = sut([&] { c.reset(new Set(*m)); }); if (r != OK) break; Quiet q;
        sut([&] { m->insert(k); m->insert("z"); if (!st.empty()) m->pop(); }); m.swap(c); break; }
      case ASSIGN: assign(m, o.c, [&](Set& x) { x.insert(k); x.insert("zz"); }); break;
      case MOVE: { std::unique_ptr<Set> c; Out r = sut([&] { c.reset(new Set(std::move(*m))); }); if (r == OK) m = std::move(c); break; }
    }
    check("after an operation");
  }
  Quiet q;
  while (!st.empty()) { sut([&] { m->pop(); }); { sim::HarnessScope hs; cur = st.back(); st.pop_back(); } check("after the final pops"); }
  }
  { const int64_t lost = sim::leaked(); SIM_CHECK(lost == 0, "leak", "%lld blocks still allocated after destruction", (long long)lost); }
}

void run_vec(const Plan& p) {
  using V = ScopedVector<std::string>;
  using M = std::vector<std::string>;
  sim::leak_mark();
  {
  std::unique_ptr<V> m(new V); M cur; std::vector<size_t> st;
  auto check = [&](const char* when) {
    sim::HarnessScope hs;
    SIM_CHECK(m->size() == cur.size() && m->empty() == cur.empty() && m->get_vector() == cur, "scoped-vector", "%s: contents differ from the reference model", when);
    M got(m->begin(), m->end()); SIM_CHECK(got == cur, "scoped-vector", "%s: iteration differs", when);
    M rev(cur.rbegin(), cur.rend()); const V& cm = *m; SIM_CHECK(cm.get_reverse() == rev && M(cm.rbegin(), cm.rend()) == rev, "scoped-vector", "%s: reverse view differs", when);
    SIM_CHECK(M(m->rbegin(), m->rend()) == rev && M(cm.begin(), cm.end()) == cur && M(m->cbegin(), m->cend()) == cur && M(cm.crbegin(), cm.crend()) == rev && cm.get_vector() == cur, "scoped-vector", "%s: iteration differs", when);
    for (size_t i = 0; i < cur.size(); ++i) SIM_CHECK((*m)[i] == cur[i] && cm[i] == cur[i], "scoped-vector", "%s: element %zu differs", when, i);
    std::ostringstream os; os << cm; std::string want; for (auto& x : cur) want += x + "\n"; SIM_CHECK(os.str() == want, "scoped-vector", "%s: printed as %s instead of %s", when, os.str().c_str(), want.c_str());
    if (!cur.empty()) SIM_CHECK(cm.first() == cur.front() && cm.last() == cur.back(), "scoped-vector", "%s: ends differ", when);
    if (!cur.empty()) SIM_CHECK(m->first() == cur.front() && m->last() == cur.back(), "scoped-vector", "%s: ends differ", when);
  };
  for (const Op& o : p.ops) {
    std::string v = val(o.b);
    switch (o.k) {
      case INS: { Out r = sut([&] { if (o.a & 1) { m->push_back(v); } else { std::string w = v; m->push_back(std::move(w)); } }); sim::HarnessScope hs; if (r == OK) cur.push_back(v); break; }
      case LOOK: { sim::HarnessScope hs; Quiet q; V other; M mo; for (size_t i = 0; i < size_t(o.b % 5); ++i) { const std::string x = i < cur.size() && int64_t(i) != o.c ? cur[i] : val(int64_t(i) * 7 + o.a); other.push_back(x); mo.push_back(x); }
        SIM_CHECK((*m < other) == (cur < mo) && (other < *m) == (mo < cur), "scoped-vector", "vectors of %zu and %zu elements are not ordered by their contents", cur.size(), mo.size()); }
        if (!cur.empty()) { size_t i = size_t(o.a) % cur.size(); SIM_CHECK((*m)[i] == cur[i], "scoped-vector", "element %zu differs", i); } break;
      case PUSH: { Out r = sut([&] { m->push(); }); if (r == OK) { sim::HarnessScope hs; st.push_back(cur.size()); } break; }
      case POP: {
        size_t n = 0; Out r = sut([&] { n = m->pop(); });
        if (st.empty()) { SIM_CHECK(r == OTHER || r == NOMEM, "scoped-vector", "pop without a matching push did not throw"); break; }
        SIM_CHECK(r == OK, "scoped-vector", "pop failed");
        SIM_CHECK(n == cur.size() - st.back(), "scoped-vector", "pop reports %zu removed elements instead of %zu", n, cur.size() - st.back());
        sim::HarnessScope hs; cur.resize(st.back()); st.pop_back(); break; }
      case COPY: { std::unique_ptr<V> c; Out r = sut([&] { c.reset(new V(*m)); }); if (r != OK) break; Quiet q;
        sut([&] { m->push_back(v); if (!st.empty()) m->pop(); }); m.swap(c); break; }
      case ASSIGN: assign(m, o.c, [&](V& x) { x.push_back(v); }); break;
      case CLEAR: if (!cur.empty()) { const size_t i = size_t(o.a) % cur.size(); Out r = sut([&] { switch (o.c) { case 0: (*m)[i] = v; break; case 1: m->first() = v; break; case 2: m->last() = v; break; default: *(m->begin() + long(i)) = v; } }); Quiet q; sim::HarnessScope hs; const size_t at = o.c == 1 ? 0 : o.c == 2 ? cur.size() - 1 : i; if (r == OK) cur[at] = v; else (*m)[at] = cur[at]; } break;
      case MOVE: { std::unique_ptr<V> c; Out r = sut([&] { c.reset(new V(std::move(*m))); }); if (r == OK) m = std::move(c); break; }
    }
    check("after an operation");
  }
  Quiet q;
  while (!st.empty()) { sut([&] { m->pop(); }); { sim::HarnessScope hs; cur.resize(st.back()); st.pop_back(); } check("after the final pops"); }
  }
  { const int64_t lost = sim::leaked(); SIM_CHECK(lost == 0, "leak", "%lld blocks still allocated after destruction", (long long)lost); }
}

void gen(Rng& g, Plan& p, int tier) {
  p.mode = 0;
  p.params["kind"] = g.below(4);
  int n = int(g.range(4, tier ? 160 : 70));
  int keys = int(g.range(1, 10)); if (g.chance(1, 10)) { n *= 4; keys = int(g.range(20, 100)); }
  // swarm: operation weights differ per run
  int w[NK]; int tot = 0; for (int i = 0; i < NK; ++i) { w[i] = int(g.below(i == INS ? 30 : i == CLEAR ? 2 : i == COPY || i == MOVE || i == ASSIGN ? 4 : 12)); if (i == INS) w[i] += 5; tot += w[i]; }
  for (int i = 0; i < n; ++i) {
    int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++];
    p.ops.push_back(Op{k, g.below(keys), g.below(50), g.below(4), 0});
  }
}
void gen_mem(Rng& g, Plan& p, int tier) { gen(g, p, tier); gen_alloc_faults(g, p, 700, 6); }
void run(const Plan& p) {
  switch (p.param("kind")) {
    case 0: run_map<ScopedUnorderedMap<int, std::string, BadHash>, int>(p); break;
    case 1: run_map<ScopedUnorderedMap<std::string, std::string, StrBadHash>, std::string>(p); break;
    case 2: run_set(p); break;
    default: run_vec(p);
  }
}
sim::Registrar r0({"scoped", gen, run}), r0b({"scopedmem", gen_mem, run});
}  // namespace
