// What the readers of scripts share: input delivered in pieces, captured output, pieces of answers.
#pragma once
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
#include "probmodel.h"
namespace prob {
struct Broken {};
class Pieces : public std::streambuf {
 public:
  Pieces(const std::string& t, int64_t piece, uint64_t seed) : t_(t), piece_(piece), g_(seed) {}
 protected:
  int_type underflow() override {
    sim::yield_point(); sim::HarnessScope hs;
    if (pos_ >= t_.size()) return traits_type::eof();
    if (sim::fault_due(sim::F_THROW, ++n_)) throw Broken{};
    size_t k = size_t(1 + (piece_ > 1 ? g_.below(piece_) : 0)); if (k > t_.size() - pos_) k = t_.size() - pos_;
    buf_.assign(t_, pos_, k); pos_ += k; setg(&buf_[0], &buf_[0], &buf_[0] + buf_.size()); return traits_type::to_int_type(buf_[0]);
  }
 private:
  std::string t_, buf_; size_t pos_{0}; int64_t piece_, n_{0}; Rng g_;
};
// ------------------------------------------------------------------ the output
struct Capture { // standard output of the process, C and C++ streams alike
  int fd, old; Capture() { std::cout.flush(); fflush(stdout); fd = memfd_create("out", 0); old = dup(1); dup2(fd, 1); }
  std::string take() { std::cout.flush(); fflush(stdout); dup2(old, 1); off_t n = lseek(fd, 0, SEEK_END); std::string s(size_t(n), 0); if (pread(fd, &s[0], size_t(n), 0) != n) s.clear(); close(fd); close(old); return s; }
};
class PerThread : public std::streambuf { // several readers: what every thread prints
 public: std::string out[64];
 protected: int_type overflow(int_type c) override { sim::HarnessScope hs; if (c != traits_type::eof()) out[sim::self() & 63] += char(c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::HarnessScope hs; out[sim::self() & 63].append(s, size_t(n)); return n; }
};
struct Cur { const std::string& s; size_t i{0}; bool end() const { return i >= s.size(); } std::string line() { size_t e = s.find('\n', i); std::string r = s.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? s.size() : e + 1; return r; } };
inline bool parse_iv(const std::string& x, Iv* o) { const char* c = x.c_str(); while (*c == ' ') ++c; char* e; if (*c == '[') { o->l = strtod(c + 1, &e); while (*e == ' ' || *e == ',') ++e; const char* f = e; o->u = strtod(f, &e); return e != f && *e == ']'; } o->l = o->u = strtod(c, &e); return e != c; }
inline bool faulty_read() { return sim::result()->fired[sim::F_READ_ERR] + sim::result()->fired[sim::F_THROW] > 0; }
// An open file with this content: its name.
inline std::string memory_file(const std::string& in, int* fd) { int fd0 = memfd_create("in", 0); *fd = dup2(fd0, 100); close(fd0); Quiet q; sim::HarnessScope hs; if (write(*fd, in.data(), in.size()) != ssize_t(in.size())) sim::fail("internal", "cannot write the script"); return "/proc/self/fd/" + std::to_string(*fd); }
}  // namespace prob
