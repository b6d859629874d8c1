// Driver: seeded batches of simulated runs (one forked child per run), determinism gate,
// minimisation and replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>

namespace sim {
static std::vector<Harness>& registry() { static std::vector<Harness> r; return r; }
void register_harness(const Harness& h) { registry().push_back(h); }
static const Harness* find_harness(const std::string& n) { for (auto& h : registry()) if (n == h.name) return &h; return nullptr; }
}  // namespace sim
using namespace sim;

static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static int cpu_limit = 20;
static std::string g_errtext;

struct Slot { Result* r; int errfd; pid_t pid; Plan plan; double started; };

std::string sim::read_stderr() { return ""; }

static void crash(int s) {
  const char* n = s == SIGSEGV ? "crash-SIGSEGV" : s == SIGABRT ? "crash-SIGABRT" : s == SIGFPE ? "crash-SIGFPE" : s == SIGBUS ? "crash-SIGBUS" : s == SIGPROF ? "hang" : "crash-signal";
  sim::fail(n, "terminated by signal %d at simulated step %lld", s, (long long)sim::steps());
}
static char altstack[65536];

#ifdef SIM_COV
extern "C" void __gcov_dump();
#endif
[[noreturn]] static void child(Slot& s) {
  setpgid(0, 0);
  dup2(s.errfd, 2); dup2(s.errfd, 1);
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int g : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(g, &sa, nullptr);
  struct itimerval it{}; it.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &it, nullptr);
  set_result(s.r);
  const Harness* h = find_harness(s.plan.harness);
  begin(s.plan);
  try {
    h->run(s.plan);
  } catch (const std::exception& e) {
    sim::fail("unexpected-exception", "harness got an unexpected exception: %s", e.what());
  }
  end();
  s.r->done = 1;
  fflush(nullptr);
#ifdef SIM_COV
  __gcov_dump();
#endif
  _exit(0);
}
static void reset(Slot& s) {
  Result* r = s.r; r->done = 0; r->cls[0] = r->msg[0] = 0; r->hash = r->sched_hash = 0;
  r->steps = r->switches = r->preempts = r->sim_ns = r->allocs = 0; memset(r->fired, 0, sizeof r->fired); r->nprobes = 0; r->ndevs = 0; r->npcs = 0;
  if (ftruncate(s.errfd, 0)) {}
  lseek(s.errfd, 0, SEEK_SET);
}
static void launch(Slot& s) {
  reset(s);
  s.started = wall();
  fflush(nullptr);
  s.pid = fork();
  if (s.pid == 0) child(s);
}
static std::string slurp_err(Slot& s) {
  std::string o(8192, 0); ssize_t n = pread(s.errfd, &o[0], o.size(), 0); o.resize(n > 0 ? n : 0); return o;
}
static void finish(Slot& s, int status) {
  Result* r = s.r;
  if (r->done == 0) {
    snprintf(r->cls, sizeof r->cls, "%s", "exit");
    if (WIFSIGNALED(status)) snprintf(r->cls, sizeof r->cls, "crash-signal-%d", WTERMSIG(status));
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 99) snprintf(r->cls, sizeof r->cls, "sim-error");
    snprintf(r->msg, sizeof r->msg, "process ended with status 0x%x before the run completed", status);
    r->done = 2;
  }
}
static Slot mkslot() {
  Slot s{}; s.r = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  s.errfd = memfd_create("simerr", 0);
  return s;
}
static void run_one(Slot& s, const Plan& p) {
  s.plan = p; launch(s);
  int st = 0; 
  while (waitpid(s.pid, &st, 0) < 0 && errno == EINTR) {}
  finish(s, st);
}

// ---------------------------------------------------------------- plan files
static void write_plan(const Plan& p, const std::string& path, const std::string& comment, const Result* r, const std::string& prop) {
  std::ofstream o(path);
  o << "simreplay 1\nharness " << p.harness << "\nproperty " << prop << "\n";
  std::istringstream is(comment); std::string l;
  while (std::getline(is, l)) o << "# " << l << "\n";
  o << "expect " << (r ? r->cls : "none") << " " << (r ? r->hash : 0) << "\n";
  o << "seed " << p.seed << "\n";
  o << "sched " << (p.replay ? 1 : 0) << " " << p.mode << " " << p.p1000 << " " << p.plain_mean << " " << p.pct_k << " " << p.pct_len << " " << p.max_steps << " " << (p.races ? 1 : 0) << "\n";
  for (auto& kv : p.params) o << "param " << kv.first << " " << kv.second << "\n";
  for (auto& x : p.ops) o << "op " << x.k << " " << x.a << " " << x.b << " " << x.c << " " << x.d << "\n";
  for (auto& f : p.faults) o << "fault " << f.kind << " " << f.a << " " << f.b << " " << f.c << " " << fault_name(f.kind) << "\n";
  for (auto& d : p.devs) o << "switch " << d.step << " " << d.tid << "\n";
}
static bool read_plan(const std::string& path, Plan* p, std::string* cls, uint64_t* hash, std::string* prop) {
  std::ifstream in(path); if (!in) return false;
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "harness") s >> p->harness;
    else if (k == "property") s >> *prop;
    else if (k == "expect") s >> *cls >> *hash;
    else if (k == "seed") s >> p->seed;
    else if (k == "sched") { int a, b; s >> a >> p->mode >> p->p1000 >> p->plain_mean >> p->pct_k >> p->pct_len >> p->max_steps >> b; p->replay = a; p->races = b; }
    else if (k == "param") { std::string n; int64_t v; s >> n >> v; p->params[n] = v; }
    else if (k == "op") { Op o; s >> o.k >> o.a >> o.b >> o.c >> o.d; p->ops.push_back(o); }
    else if (k == "fault") { Fault f; s >> f.kind >> f.a >> f.b >> f.c; p->faults.push_back(f); }
    else if (k == "switch") { Dev d; s >> d.step >> d.tid; p->devs.push_back(d); }
  }
  return true;
}
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static std::string symbolize(const Result* r) {
  if (!r->npcs) return "";
  char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n <= 0) return ""; exe[n] = 0;
  std::string cmd = std::string("addr2line -Cfspe ") + exe;
  char b[32];
  for (int i = 0; i < r->npcs && i < 16; ++i) { snprintf(b, sizeof b, " 0x%llx", (unsigned long long)(r->pcs[i] - 1)); cmd += b; }
  cmd += " 2>/dev/null";
  FILE* f = popen(cmd.c_str(), "r"); if (!f) return "";
  std::string o; char buf[4096];
  while (fgets(buf, sizeof buf, f)) { std::string l = buf; if (l.size() > 240) l = l.substr(0, 240) + "...\n"; o += "  at " + l; }
  pclose(f);
  return o;
}
struct Known { std::string cls, sub; };
static std::vector<Known> known;

static std::string plan_text(const Plan& p) {
  std::ostringstream o;
  o << p.harness << " seed=" << p.seed;
  for (auto& kv : p.params) o << " " << kv.first << "=" << kv.second;
  o << " mode=" << p.mode << " p=" << p.p1000 << " ops=[";
  for (size_t i = 0; i < p.ops.size() && i < 14; ++i) o << (i ? ";" : "") << p.ops[i].k << "," << p.ops[i].a << "," << p.ops[i].b << "," << p.ops[i].c;
  if (p.ops.size() > 14) o << ";...(" << p.ops.size() << ")";
  o << "] faults=[";
  for (size_t i = 0; i < p.faults.size(); ++i) o << (i ? ";" : "") << fault_name(p.faults[i].kind) << "@" << p.faults[i].a << "," << p.faults[i].b;
  o << "]";
  return o.str();
}

// ---------------------------------------------------------------- minimise
template <class T, class Get>
static void ddmin(Plan& p, Slot& s, const std::string& cls, Get get, double deadline, int& budget) {
  size_t n = 2;
  while (get(p).size() >= 1 && wall() < deadline && budget > 0) {
    std::vector<T>& v = get(p);
    size_t len = v.size(); if (n > len) n = len;
    size_t chunk = (len + n - 1) / n; bool red = false;
    for (size_t i = 0; i < len && wall() < deadline && budget > 0; i += chunk) {
      Plan q = p; std::vector<T>& w = get(q);
      w.erase(w.begin() + i, w.begin() + std::min(len, i + chunk));
      run_one(s, q); --budget;
      if (s.r->done == 2 && cls == s.r->cls) { p = q; red = true; break; }
    }
    if (red) { n = n > 2 ? n - 1 : 2; continue; }
    if (chunk <= 1) break;
    n = std::min(len, n * 2);
  }
}

int main(int argc, char** argv) {
  { auto& ct = std::use_facet<std::ctype<char>>(std::locale()); char b[256], o[256]; (void)ct.widen('a'); (void)ct.narrow('a', 0); for (int i = 0; i < 256; ++i) { b[i] = char(i); (void)ct.narrow(char(i), 0); } ct.widen(b, b + 256, o); ct.narrow(b, b + 256, 0, o); }  // lazily filled tables: the same in every run
  // Fixed addresses: re-exec without ASLR when allowed (best effort).
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc < 3) { fprintf(stderr, "usage: sim run|replay|gate ...\n"); return 2; }
  std::string cmd = argv[1];
  std::map<std::string, std::string> o;
  for (int i = 3; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
  cpu_limit = int(num("--cpu", 20));
  if (cmd == "replay") {
    Plan p; std::string cls, prop; uint64_t h = 0;
    if (!read_plan(argv[2], &p, &cls, &h, &prop)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    if (!find_harness(p.harness)) { fprintf(stderr, "no harness %s\n", p.harness.c_str()); return 2; }
    Slot s = mkslot(); run_one(s, p);
    printf("result done=%d class=%s hash=%llu expected_class=%s expected_hash=%llu steps=%lld\n", s.r->done, s.r->cls[0] ? s.r->cls : "none", (unsigned long long)s.r->hash, cls.c_str(), (unsigned long long)h, (long long)s.r->steps);
    if (s.r->done == 2) { printf("%s\n%s", s.r->msg, symbolize(s.r).c_str()); std::string e = slurp_err(s); if (!e.empty()) printf("output: %s\n", e.c_str()); }
    return s.r->done == 2 ? 1 : 0;
  }
  if (cmd == "show") {
    const Harness* h = find_harness(argv[2]); if (!h) return 2;
    Rng g(strtoull(o["--seed"].c_str(), nullptr, 10)); Plan p; p.harness = h->name; p.seed = g.s; h->gen(g, p, int(num("--tier", 0)));
    puts(plan_text(p).c_str()); return 0;
  }
  const Harness* h = find_harness(argv[2]);
  if (!h) { fprintf(stderr, "no harness %s\n", argv[2]); return 2; }
  const uint64_t base = strtoull(o.count("--seed") ? o["--seed"].c_str() : "1", nullptr, 10);
  const int jobs = int(num("--jobs", 8)), tier = int(num("--tier", 0));
  const double tmax = num("--time", 20); const int64_t maxruns = int64_t(num("--max-runs", 1e15));
  const bool gate = cmd == "gate";  // determinism: every plan twice
  const std::string prop = o.count("--prop") ? o["--prop"] : "X00";
  const std::string rdir = o.count("--replay-dir") ? o["--replay-dir"] : ".";
  if (o.count("--known")) {
    std::ifstream in(o["--known"]); std::string l;
    while (std::getline(in, l)) { // KNOWN property=<id> class=<cls> match=<substring>
      if (l.compare(0, 6, "KNOWN ")) continue;
      std::istringstream s(l); std::string w, pr; Known k; s >> w >> pr >> w; k.cls = w.substr(6); std::getline(s, k.sub); size_t m = k.sub.find("match="); k.sub = m == std::string::npos ? "" : k.sub.substr(m + 6);
      if (pr == "property=" + prop) known.push_back(k);
    }
  }
  std::vector<std::string> classes; std::map<std::string, int64_t> others; std::map<std::string, std::string> others_sample;
  if (o.count("--classes")) { std::istringstream cs(o["--classes"]); std::string c; while (std::getline(cs, c, ',')) if (!c.empty()) classes.push_back(c); }
  std::vector<Slot> sl; for (int i = 0; i < jobs; ++i) sl.push_back(mkslot());
  Slot ms = mkslot();
  const double t0 = wall();
  int64_t started = 0, runs = 0, steps = 0, switches = 0, preempts = 0, simns = 0, allocs = 0, nontrivial = 0, mismatches = 0, known_hits = 0;
  int64_t fired[F_MAX] = {0}, runs_with[F_MAX] = {0};
  std::map<std::string, int64_t> probes; std::set<uint64_t> distinct, distinct_nt, states;
  std::vector<std::string> samples; std::map<std::string, int64_t> errors;
  std::map<int, uint64_t> first_hash; std::map<int, std::string> first_text;
  auto gate_text = [](const Result& r) { char b[400]; snprintf(b, sizeof b, "done=%d %s hash=%llx schedule=%llx steps=%lld switches=%lld ns=%lld allocs=%lld", r.done, r.cls, (unsigned long long)r.hash, (unsigned long long)r.sched_hash, (long long)r.steps, (long long)r.switches, (long long)r.sim_ns, (long long)r.allocs); return std::string(b); };
  bool stop = false, violated = false; std::string vpath, vcls, vmsg;
  int active = 0;
  auto mkplan = [&](int64_t i) {
    Rng g(base * 1000003ull + uint64_t(i) * 7919ull + 17);
    for (const char* c = h->name; *c; ++c) g.s = g.s * 31 + *c;
    g.next();
    Plan p; p.harness = h->name; p.seed = g.next(); h->gen(g, p, tier); return p;
  };
  std::vector<int64_t> idx(jobs, -1);
  for (;;) {
    for (int i = 0; i < jobs && !stop; ++i)
      if (sl[i].pid == 0) {
        if (wall() - t0 > tmax || started >= maxruns) { stop = true; break; }
        idx[i] = started++;
        sl[i].plan = mkplan(gate ? idx[i] / 2 : idx[i]);
        launch(sl[i]); ++active;
      }
    if (!active) break;
    int st; pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) { if (errno == EINTR) continue; break; }
    for (int i = 0; i < jobs; ++i) {
      if (sl[i].pid != pid) continue;
      Slot& s = sl[i]; s.pid = 0; --active; finish(s, st);
      Result* r = s.r;
      ++runs; steps += r->steps; switches += r->switches; preempts += r->preempts; simns += r->sim_ns; allocs += r->allocs;
      bool anyf = false;
      for (int k = 0; k < F_MAX; ++k) { fired[k] += r->fired[k]; if (r->fired[k]) { ++runs_with[k]; anyf = true; } }
      for (int k = 0; k < r->nprobes; ++k) probes[r->probes[k].name] += r->probes[k].n;
      distinct.insert(r->hash);
      if (anyf || r->preempts > 0) { ++nontrivial; distinct_nt.insert(r->hash); }
      if (r->sched_hash) states.insert(r->sched_hash);
      if (samples.size() < 3 && (anyf || r->preempts > 0)) samples.push_back(plan_text(s.plan) + " -> steps=" + std::to_string(r->steps) + " switches=" + std::to_string(r->switches) + " outcome=" + (r->done == 1 ? "ok" : r->cls));
      if (gate) {
        uint64_t hh = r->hash ^ (r->done * 77ull) ^ (r->sched_hash * 3);
        int key = int(idx[i] / 2);
        if (first_hash.count(key)) { if (first_hash[key] != hh) { ++mismatches; fprintf(stderr, "nondeterminism at plan %d: %s (%s / %s)\n", key, plan_text(s.plan).c_str(), first_text[key].c_str(), gate_text(*r).c_str()); } first_hash.erase(key); }
        else { first_hash[key] = hh; first_text[key] = gate_text(*r); }
        if (r->done == 2) errors[r->cls]++;
        continue;
      }
      if (r->done == 2 && !violated) {
        // gate 1: same plan, same PRNG, again
        std::string cls = r->cls, msg = r->msg, sym = symbolize(r), err = slurp_err(s); uint64_t hash = r->hash;
        bool is_known = false;
        for (auto& k : known) if (k.cls == cls && (k.sub.empty() || (msg + sym + err).find(k.sub) != std::string::npos)) is_known = true;
        if (is_known) { ++known_hits; continue; }
        if (!classes.empty()) { bool in = false; for (auto& c : classes) if (c == cls || (c.back() == '*' && cls.compare(0, c.size() - 1, c, 0, c.size() - 1) == 0)) in = true; if (!in) { others[cls]++; if (others_sample[cls].empty()) others_sample[cls] = msg; continue; } }
        if (cls == "sim-error" || cls == "harness-limit") { errors[cls + ": " + msg]++; continue; }
        Plan p = s.plan;
        std::vector<Dev> devs; bool overflow = r->ndevs > 20000; if (!overflow) devs.assign(r->devs, r->devs + r->ndevs);
        run_one(ms, p);
        if (ms.r->done != 2 || cls != ms.r->cls || hash != ms.r->hash) { errors["not-reproducible: " + cls + ": " + msg + " vs " + ms.r->cls + "\n" + sym]++; fprintf(stderr, "not reproducible: %s %s / %s %s\n%s\n", cls.c_str(), msg.c_str(), ms.r->cls, ms.r->msg, plan_text(p).c_str()); continue; }
        violated = true; stop = true;
        double dl = wall() + num("--min-time", 25); int budget = 1500;
        Plan q = p;
        if (!overflow) {
          q.replay = true; q.devs = devs; run_one(ms, q);
          if (ms.r->done != 2 || cls != ms.r->cls) q = p;
        }
        if (q.replay) ddmin<Dev>(q, ms, cls, [](Plan& x) -> std::vector<Dev>& { return x.devs; }, dl, budget);
        ddmin<Op>(q, ms, cls, [](Plan& x) -> std::vector<Op>& { return x.ops; }, dl, budget);
        ddmin<Fault>(q, ms, cls, [](Plan& x) -> std::vector<Fault>& { return x.faults; }, dl, budget);
        if (q.replay) ddmin<Dev>(q, ms, cls, [](Plan& x) -> std::vector<Dev>& { return x.devs; }, dl, budget);
        run_one(ms, q);
        if (ms.r->done != 2 || cls != ms.r->cls) { q = p; run_one(ms, q); }
        vcls = cls; vmsg = std::string(ms.r->msg) + "\n" + symbolize(ms.r); std::string e2 = slurp_err(ms); if (!e2.empty()) vmsg += "output: " + e2.substr(0, 1500) + "\n";
        vpath = rdir + "/" + prop + "-" + h->name + "-" + std::to_string(p.seed % 1000000007ull) + ".replay";
        write_plan(q, vpath, vcls + ": " + vmsg + "\nfound with VERIF_SEED=" + std::to_string(base) + " run=" + std::to_string(idx[i]), ms.r, prop);
      }
    }
  }
  const double dt = wall() - t0;
  std::ostringstream j;
  j << "{\"harness\":" << jstr(h->name) << ",\"runs\":" << runs << ",\"wall_s\":" << dt << ",\"runs_per_hour\":" << int64_t(runs / (dt > 0 ? dt : 1) * 3600) << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"preemptions\":" << preempts << ",\"sim_seconds\":" << simns / 1e9 << ",\"sut_allocations\":" << allocs << ",\"distinct_histories\":" << distinct.size() << ",\"distinct_nontrivial\":" << distinct_nt.size() << ",\"distinct_schedules\":" << states.size() << ",\"nontrivial\":" << nontrivial << ",\"known_hits\":" << known_hits << ",\"mismatches\":" << mismatches << ",\"faults\":{";
  bool f1 = true; for (int k = 1; k < F_MAX; ++k) if (fired[k]) { j << (f1 ? "" : ",") << jstr(fault_name(k)) << ":{\"fired\":" << fired[k] << ",\"runs\":" << runs_with[k] << "}"; f1 = false; }
  j << "},\"probes\":{"; f1 = true; for (auto& kv : probes) { j << (f1 ? "" : ",") << jstr(kv.first) << ":" << kv.second; f1 = false; }
  j << "},\"other_property_violations\":{"; f1 = true; for (auto& kv : others) { j << (f1 ? "" : ",") << jstr(kv.first) << ":" << jstr(std::to_string(kv.second) + " runs, e.g. " + others_sample[kv.first].substr(0, 300)); f1 = false; }
  j << "},\"errors\":{"; f1 = true; for (auto& kv : errors) { j << (f1 ? "" : ",") << jstr(kv.first) << ":" << kv.second; f1 = false; }
  j << "},\"samples\":["; f1 = true; for (auto& x : samples) { j << (f1 ? "" : ",") << jstr(x); f1 = false; }
  j << "],\"violation\":" << (violated ? jstr(vpath) : "null") << ",\"violation_class\":" << jstr(vcls) << ",\"violation_msg\":" << jstr(vmsg) << "}\n";
  if (o.count("--out")) { std::ofstream f(o["--out"]); f << j.str(); } else fputs(j.str().c_str(), stdout);
  return violated ? 1 : (errors.empty() || gate) && mismatches == 0 ? 0 : 3;
}
