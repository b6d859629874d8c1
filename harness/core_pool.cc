// ThreadPool: exactly-once execution, futures, exceptions, draining destruction, ids.
#include "ThreadPool/ThreadPool.h"
#include "hx.h"
using namespace hx;
namespace {
constexpr int MAXTASK = 400;
struct World {
  // written by tasks under HarnessScope (the simulator serialises threads)
  int runs[MAXTASK]; int done[MAXTASK]; char opt[MAXTASK]; int by[MAXTASK]; int pool_of[MAXTASK]; int order[MAXTASK]; int n{0}; int finished{0};
  int blocked{0};  // tasks that wait for another task
};
World* W;
struct TaskError : std::runtime_error { int id; explicit TaskError(int i) : std::runtime_error("task"), id(i) {} };

// op kinds: 0 enqueue plain, 1 enqueue throwing, 2 enqueue that sleeps, 3 enqueue nested (task enqueues another),
//           4 wait for a future, 5 destroy the pool and build a new one, 6 enqueue with by-value heap argument, 7 yield
enum { ENQ, ENQ_THROW, ENQ_SLEEP, ENQ_NEST, WAIT, REBUILD, ENQ_ARG, YIELD, ENQ_DEP, NK };

struct Fut { int task; bool throws; std::future<int> f; };

int body(int id, int kind) {
  { sim::HarnessScope hs; ++W->runs[id]; W->by[id] = sim::self(); W->order[id] = ++W->finished; }
  sim::yield_point();
  if (kind == ENQ_SLEEP) std::this_thread::sleep_for(std::chrono::microseconds(50 + id));
  { sim::HarnessScope hs; ++W->done[id]; }
  if (kind == ENQ_THROW) throw TaskError(id);
  return id * 7 + 1;
}
int new_task() { sim::HarnessScope hs; SIM_CHECK(W->n < MAXTASK, "harness-limit", "too many tasks"); return W->n++; }

void collect(Fut& f) {
  sim::set_step_limit(400000);
  int v = -1; bool thrown = false, broken = false; int tid = -1;
  try { v = f.f.get(); } catch (const TaskError& e) { thrown = true; tid = e.id; } catch (const std::bad_alloc&) { broken = true; } catch (const std::future_error&) { broken = true; }
  sim::clear_step_limit();
  sim::HarnessScope hs;
  SIM_CHECK(!broken || sim::result()->fired[sim::F_ALLOC], "future-broken", "the future of task %d was abandoned", f.task);
  if (broken) { SIM_CHECK(W->runs[f.task] <= 1, "task-count", "task %d ran %d times", f.task, W->runs[f.task]); return; }
  SIM_CHECK(W->runs[f.task] == 1 && W->done[f.task] == 1, "task-count", "task %d ran %d times and finished %d times before its future became ready", f.task, W->runs[f.task], W->done[f.task]);
  SIM_CHECK(thrown == f.throws, "future-outcome", "task %d: exception delivered=%d expected=%d", f.task, thrown, f.throws);
  if (thrown) SIM_CHECK(tid == f.task, "future-outcome", "future of task %d carries the exception of task %d", f.task, tid);
  else SIM_CHECK(v == f.task * 7 + 1, "future-outcome", "future of task %d carries %d", f.task, v);
}

struct Client {
  ThreadPool* pool; const Plan* p; int who; int nthr; int64_t size; bool may_fail;
  std::vector<Fut> futs;
  std::vector<int> failed, nested;  // tasks whose enqueue failed
  // A task that waits for a second one, submitted right after it: an idle worker has to run the second one.
  void enqueue_dep() {
    { sim::HarnessScope hs; if (W->blocked + 1 >= size) return; ++W->blocked; futs.reserve(futs.size() + 2); }
    int a = new_task(), b = new_task();
    auto go = std::make_shared<std::promise<void>>(); std::shared_future<void> ready(go->get_future());
    bool fa = true;
    if (sut([&] { futs.push_back(Fut{a, false, pool->enqueue([a, ready] { int v = body(a, ENQ); ready.wait(); { sim::HarnessScope hs; --W->blocked; } return v; })}); }) != OK) { sim::HarnessScope hs; failed.push_back(a); fa = false; }
    if (sut([&] { futs.push_back(Fut{b, false, pool->enqueue([b, go] { int v = body(b, ENQ); go->set_value(); return v; })}); }) != OK) { { sim::HarnessScope hs; failed.push_back(b); if (W->runs[b]) return; } try { go->set_value(); } catch (const std::future_error&) {} }
    { sim::HarnessScope hs; if (!fa) --W->blocked; }
    sim::probe("dependent_tasks");
  }
  void enqueue(int kind, int64_t a) {
    if (kind == ENQ_DEP) return enqueue_dep();
    int id = new_task();
    std::string what;
    Out r = sut([&] {
      if (kind == ENQ_NEST) {
        ThreadPool* q = pool; int id2 = new_task(); W->opt[id2] = 1;
        futs.push_back(Fut{id, false, q->enqueue([q, id, id2] {
          int v = body(id, ENQ);
          // an enqueue that fails (no memory, pool already stopping) must not run the job more than once
          { sim::HarnessScope hs; W->opt[id2] = 0; }
          try { q->enqueue([id2] { return body(id2, ENQ); }); }
          catch (const std::exception& e) { sim::HarnessScope hs; W->opt[id2] = 1; }
          return v; })});
      } else if (kind == ENQ_ARG) {
        std::string s = "argument-with-a-heap-buffer-" + std::to_string(a);
        futs.push_back(Fut{id, false, pool->enqueue([id](const std::string& t, const std::vector<int>& v) { int x = body(id, ENQ); if (t.size() < 28 || v.size() != 5) return -1; return x; }, s, std::vector<int>(5, 1))});
      } else {
        futs.push_back(Fut{id, kind == ENQ_THROW, pool->enqueue([id, kind] { return body(id, kind); })});
      }
    }, &what);
    if (r != OK) {
      sim::HarnessScope hs;
      SIM_CHECK(r == NOMEM, "enqueue-failed", "enqueue on a live pool failed: %s", what.c_str());
      failed.push_back(id);
      // a failed enqueue may or may not have queued the job, but never more than one run
    }
  }
  void run() {
    int i = 0;
    for (const Op& o : p->ops) {
      if ((i++) % nthr != who) continue;
      switch (o.k) {
        case ENQ: case ENQ_THROW: case ENQ_SLEEP: case ENQ_NEST: case ENQ_ARG: case ENQ_DEP: enqueue(int(o.k), o.a); break;
        case WAIT: if (!futs.empty()) { size_t k = size_t(o.a) % futs.size(); Fut f = std::move(futs[k]); futs.erase(futs.begin() + k); collect(f); } break;
        default: sim::yield_point();
      }
    }
    if (p->param("waitall")) { for (auto& f : futs) collect(f); futs.clear(); }
  }
};

void final_check(const World& w, std::vector<Client*> cs) {
  sim::HarnessScope hs;
  std::set<int> failed; for (auto* c : cs) for (int t : c->failed) failed.insert(t);
  for (int i = 0; i < w.n; ++i) {
    if (w.opt[i] || failed.count(i)) { SIM_CHECK(w.runs[i] <= 1, "task-count", "task %d whose submission failed ran %d times", i, w.runs[i]); continue; }
    // a nested task is only submitted if its parent ran
    SIM_CHECK(w.runs[i] == 1 && w.done[i] == 1, "task-count", "after the pool was destroyed task %d had run %d times", i, w.runs[i]);
  }
  for (auto* c : cs) for (auto& f : c->futs) {
    SIM_CHECK(f.f.valid() && f.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future-lost", "future of task %d is not ready after the pool was destroyed", f.task);
  }
}

void run(const Plan& p) {
  W = new World(); memset(W->runs, 0, sizeof W->runs); memset(W->done, 0, sizeof W->done);
  const int nclients = int(p.param("clients", 1)); const int64_t size = p.param("size", 2);
  const int rounds = int(p.param("rounds", 1));
  for (int round = 0; round < rounds; ++round) {
    memset(W->runs, 0, sizeof W->runs); memset(W->done, 0, sizeof W->done); memset(W->opt, 0, sizeof W->opt); W->n = 0; W->blocked = 0;
    int before = sim::live_threads();
    std::unique_ptr<ThreadPool> pool;
    Out r = sut([&] { pool.reset(new ThreadPool(size_t(size))); });
    if (r != OK) {
      sim::HarnessScope hs;
      SIM_CHECK(r == NOMEM || (r == NOTHREAD && sim::result()->fired[sim::F_THREAD]), "pool-construct", "constructing a pool failed without a failed system call");
      SIM_CHECK(sim::live_threads() == before, "thread-leak", "%d worker threads survive a failed pool construction", sim::live_threads() - before);
      sim::probe("pool_construct_failed");
      continue;
    }
    SIM_CHECK(sim::live_threads() <= before + size, "thread-count", "pool of size %lld started %d threads", (long long)size, sim::live_threads() - before);
    std::vector<std::unique_ptr<Client>> cs; std::vector<Client*> cp;
    for (int i = 0; i < nclients; ++i) { cs.emplace_back(new Client{pool.get(), &p, i, nclients, size, false, {}, {}, {}}); cp.push_back(cs.back().get()); }
    std::vector<std::thread> th;
    { sim::HarnessScope hs; for (int i = 1; i < nclients; ++i) th.emplace_back([&cs, i] { cs[size_t(i)]->run(); }); }
    cs[0]->run();
    for (auto& t : th) t.join();
    sim::set_step_limit(600000);
    sut([&] { pool.reset(); });
    sim::clear_step_limit();
    SIM_CHECK(sim::live_threads() == before, "thread-leak", "%d threads survive the destruction of the pool", sim::live_threads() - before);
    final_check(*W, cp);
  }
}
void gen_w(Rng& g, Plan& p, int tier, bool stop, bool faults) {
  gen_sched(g, p, 3000);
  p.params["size"] = g.chance(1, 8) ? 1 : g.range(1, 5);
  p.params["clients"] = g.chance(1, 2) ? 1 : g.range(1, 4);
  p.params["rounds"] = g.range(1, 3);
  p.params["waitall"] = g.below(2);
  int n = int(g.range(1, tier ? 60 : 30)); if (g.chance(1, 12)) { n *= 4; p.params["size"] = g.range(6, 12); }
  int w[NK]; int tot = 0; for (int i = 0; i < NK; ++i) { w[i] = int(g.below(12)); if (i == ENQ) w[i] += 4; tot += w[i]; }
  for (int i = 0; i < n; ++i) { int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++]; p.ops.push_back(Op{k, g.below(100), 0, 0, 0}); }
  if (stop) { p.params["waitall"] = 0; if (g.chance(1, 2)) for (auto& o : p.ops) if (o.k == WAIT) o.k = ENQ; }
  if (g.chance(1, 2)) gen_spurious(g, p, 30);
  if (g.chance(1, 3)) gen_stalls(g, p, 1500, 6);
  if (faults) {
    const int m = int(g.below(3));
    if (m != 0) gen_alloc_faults(g, p, 300);
    if (m != 1) { int64_t size = p.params["size"]; int64_t rounds = p.params["rounds"]; p.faults.push_back(Fault{sim::F_THREAD, g.range(1, size * rounds), 0, 0}); if (g.chance(1, 3)) p.faults.push_back(Fault{sim::F_THREAD, g.range(1, size * rounds), 0, 0}); }
  }
}
void gen(Rng& g, Plan& p, int tier) { gen_w(g, p, tier, g.chance(1, 4), false); }
void gen_stop(Rng& g, Plan& p, int tier) { gen_w(g, p, tier, true, false); }
void gen_fail(Rng& g, Plan& p, int tier) { gen_w(g, p, tier, g.chance(1, 2), true); }
sim::Registrar r0({"pool", gen, run}), r0b({"poolstop", gen_stop, run}), r0c({"poolfail", gen_fail, run});

// ---- worker identities: several pools alive at once, several generations, pools used from any thread
struct Ids { std::vector<std::vector<int>> seen; };
void run_ids(const Plan& p) {
  const int npools = int(p.param("pools", 2)), gens = int(p.param("gens", 2));
  auto use = [&](int salt) {
    struct P1 { std::unique_ptr<ThreadPool> pool; int size; std::map<int, int> tid_to_id, id_to_tid; };
    for (int gn = 0; gn < gens; ++gn) {
      std::vector<std::unique_ptr<P1>> ps;
      for (int i = 0; i < npools; ++i) {
        auto x = std::unique_ptr<P1>(new P1); x->size = 1 + int((p.param("size") + i * salt + gn) % p.param("sizes", 4));
        Out r = sut([&] { x->pool.reset(new ThreadPool(size_t(x->size))); });
        if (r != OK) continue;
        ps.push_back(std::move(x));
      }
      std::vector<std::future<void>> fs;
      for (const Op& o : p.ops) {
        if (ps.empty()) break;
        P1* x = ps[size_t(o.a) % ps.size()].get();
        sut([&] { fs.push_back(x->pool->enqueue([x] {
          int id = ThreadPool::get_thread_id(); sim::yield_point(); int id2 = ThreadPool::get_thread_id();
          sim::HarnessScope hs;
          SIM_CHECK(id == id2, "worker-id", "a worker's id changed from %d to %d", id, id2);
          SIM_CHECK(id >= 0 && id <= x->size, "worker-id", "worker id %d is outside 0..%d for a pool of %d workers", id, x->size, x->size);
          auto a = x->tid_to_id.emplace(sim::self(), id); SIM_CHECK(a.first->second == id, "worker-id", "one worker has two ids");
          auto b = x->id_to_tid.emplace(id, sim::self()); SIM_CHECK(b.first->second == sim::self(), "worker-id", "two workers of one pool share the id %d", id);
        })); });
        // the caller participates with an id of its own
        if (o.b) { int me = ThreadPool::get_thread_id(); sim::HarnessScope hs;
          SIM_CHECK(me >= 0, "worker-id", "negative id");
          for (auto& y : ps) { auto b = y->id_to_tid.emplace(me, sim::self()); SIM_CHECK(b.first->second == sim::self(), "worker-id", "the thread using a pool and one of its workers share the id %d", me);
            SIM_CHECK(me <= y->size, "worker-id", "id %d of the thread using the pool is outside 0..%d", me, y->size); } }
      }
      for (auto& f : fs) f.get();
      for (size_t i = 0; i < ps.size(); ++i) if (p.param("fifo")) ps[i].reset(); 
    }
  };
  int users = int(p.param("users", 1));
  std::vector<std::thread> th;
  { sim::HarnessScope hs; for (int i = 1; i < users; ++i) th.emplace_back([&use, i] { use(i); }); }
  use(0);
  for (auto& t : th) t.join();
}
void gen_ids(Rng& g, Plan& p, int tier) {
  gen_sched(g, p, 3000);
  p.params["pools"] = g.chance(1, 2) ? 1 : g.range(1, 3); p.params["gens"] = g.range(1, 3); p.params["size"] = g.below(4);
  p.params["users"] = g.chance(1, 2) ? 1 : g.range(1, 3); p.params["fifo"] = g.below(2);
  int n = int(g.range(2, 24)); if (g.chance(1, 12)) { n *= 3; p.params["pools"] = p.params["gens"] = 1; p.params["users"] = 1; p.params["sizes"] = 12; p.params["size"] = g.below(12); } for (int i = 0; i < n; ++i) p.ops.push_back(Op{0, g.below(8), g.chance(1, 3), 0, 0});
  if (g.chance(1, 3)) gen_spurious(g, p, 20);
  if (g.chance(1, 3)) gen_stalls(g, p, 1500, 6);
}
sim::Registrar r1({"pool_ids", gen_ids, run_ids});
}  // namespace
