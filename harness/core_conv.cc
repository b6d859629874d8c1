// Conversions between number types, file names and the existence of files (against a simulated file system).
#include <fenv.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include "dreal/util/filesystem.h"
#include "dreal/util/math.h"
#include "hx.h"
using namespace hx;
namespace {
struct Vfs { std::map<std::string, mode_t> files; int64_t calls{0}; };
Vfs* g_vfs = nullptr;
}
// paths below /sim/ are answered by the simulated file system
extern "C" __attribute__((noinline)) int stat(const char* path, struct stat* st) noexcept {
  if (g_vfs && path && !strncmp(path, "/sim/", 5)) {
    int64_t how = 0; const int64_t n = ++g_vfs->calls;
    if (sim::fault_due(sim::F_READ_ERR, n, &how)) { static const int es[] = {EIO, EACCES, ENOMEM, ELOOP}; errno = es[how & 3]; return -1; }
    sim::HarnessScope hs; Quiet q;
    auto it = g_vfs->files.find(path); if (it == g_vfs->files.end()) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st); st->st_mode = it->second; st->st_size = 10; return 0;
  }
  return int(syscall(SYS_newfstatat, AT_FDCWD, path, st, 0));
}
namespace {
int64_t edge64(int64_t i) { // numbers close to the borders of the types
  static const int64_t e[] = {0, 1, -1, INT_MAX, INT_MIN, int64_t(1) << 53, -(int64_t(1) << 53), INT64_MAX, INT64_MIN + 3, int64_t(1) << 32, int64_t(1) << 54, 4503599627370496, 65536};
  const int64_t b = e[size_t(i % 13)]; const int64_t d = (i / 13) % 7 - 3; return d > 0 && b > INT64_MAX - d ? b : b + d;
}
void run_conv(const Plan& p) {
  Vfs vfs; g_vfs = &vfs; struct Off { ~Off() { g_vfs = nullptr; fesetround(FE_TONEAREST); } } off;
  static const int rm[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  static const mode_t kinds[] = {S_IFREG | 0644, S_IFDIR | 0755, S_IFLNK, S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK, S_IFREG | 0000};
  std::string what;
  auto thrown = [&](auto f) { bool t = false; Out r = sut([&] { try { f(); } catch (const std::bad_alloc&) { throw; } catch (const std::runtime_error&) { t = true; } }); return std::make_pair(r, t); };
  for (const Op& o : p.ops) {
    fesetround(rm[o.d & 3]);
    switch (o.k % 6) {
      case 0: { const int64_t v = edge64(o.a); int got = 0; auto rt = thrown([&] { got = dreal::convert_int64_to_int(v); }); const bool fits = v >= INT_MIN && v <= INT_MAX;
        SIM_CHECK(rt.first == NOMEM || rt.second == !fits, "convert", "%lld is %s as an int", (long long)v, rt.second ? "refused" : "accepted"); if (rt.first == OK && !rt.second) SIM_CHECK(int64_t(got) == v, "convert", "%lld becomes %d", (long long)v, got); sim::note(uint64_t(got)); break; }
      case 1: { const int64_t v = edge64(o.a); double got = 0; auto rt = thrown([&] { got = dreal::convert_int64_to_double(v); }); const int64_t m = int64_t(1) << 53; const bool exact = v >= -m && v <= m;
        SIM_CHECK(rt.first == NOMEM || rt.second == !exact, "convert", "%lld is %s as a double", (long long)v, rt.second ? "refused" : "accepted"); if (rt.first == OK && !rt.second) SIM_CHECK(int64_t(got) == v && got == std::floor(got), "convert", "%lld becomes %.17g", (long long)v, got); break; }
      case 2: { double v; switch (o.b % 8) { case 0: v = double(edge64(o.a)); break; case 1: v = double(edge64(o.a)) + 0.5; break; case 2: v = std::nextafter(double(edge64(o.a)), 1e300); break; case 3: v = std::nextafter(double(edge64(o.a)), -1e300); break; case 4: v = o.a & 1 ? INFINITY : -INFINITY; break; case 5: v = NAN; break; case 6: v = std::ldexp(1.0, int(o.a % 70)) + (o.c % 3 - 1); break; default: v = std::ldexp(double(o.c) - 20, -int(o.a % 8)); }
        const bool want = v == v && v >= double(INT_MIN) && v <= double(INT_MAX) && v == std::trunc(v); const bool got = dreal::is_integer(v); SIM_CHECK(got == want, "convert", "%.17g is reported %s an int", v, got ? "to be" : "not to be"); break; }
      case 3: { static const char* parts[] = {"a", ".", "smt2", "/", "dr", "..", ".x", "", "b.c", "~"}; Quiet q; std::string n; for (int64_t i = 0, x = o.a * 31 + o.b; i < 1 + o.c % 5; ++i, x /= 3) n += parts[size_t(x % 10)];
        std::string want; for (size_t i = n.size(); i-- > 0;) if (n[i] == '.') { want = n.substr(i + 1); break; }
        std::string got; const uint64_t ff = sim::faults_fired(); { sim::enable_faults(true); Out r = sut([&] { got = dreal::get_extension(n); }); sim::enable_faults(false); if (r == NOMEM) break; } (void)ff; SIM_CHECK(got == want, "filesystem", "the extension of '%s' is reported as '%s'", n.c_str(), got.c_str()); break; }
      case 4: { Quiet q; const std::string n = "/sim/f" + std::to_string(o.a % 5); if (o.b % 4 == 3) vfs.files.erase(n); else vfs.files[n] = kinds[size_t(o.c % 8)]; break; }
      default: { Quiet q; const std::string n = "/sim/f" + std::to_string(o.a % 5) + (o.b % 6 == 0 ? "/" : ""); const uint64_t ff = sim::faults_fired(); bool got; { sim::SutScope ss; sim::mask_fault(sim::F_ALLOC, true); sim::enable_faults(true); got = dreal::file_exists(n); sim::enable_faults(false); sim::mask_fault(sim::F_ALLOC, false); } auto it = vfs.files.find(n); const bool want = it != vfs.files.end() && S_ISREG(it->second) && sim::faults_fired() == ff;
        SIM_CHECK(got == want, "filesystem", "%s is reported %s", n.c_str(), got ? "to be a file" : "not to be a file"); break; }
    }
    SIM_CHECK(fegetround() == rm[o.d & 3], "convert", "the rounding mode was changed");
  }
}
void gen_conv(Rng& g, Plan& p, int tier) {
  p.mode = 0; int n = int(g.range(4, tier ? 100 : 50)); for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(6), g.below(91), g.below(48), g.below(40), g.below(4)});
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 100, 4);
  if (g.chance(1, 2)) for (int i = 0; i < 3; ++i) p.faults.push_back(Fault{sim::F_READ_ERR, g.range(1, 12), g.below(4), 0});
}
sim::Registrar r0({"conv", gen_conv, run_conv});
}  // namespace
