// Stand-in for libcds: start-up, thread attachment, and a Treiber stack (below). As with libcds, a thread that uses a
// container must be attached; unlike libcds, violating this is reported.
#pragma once
#include <atomic>
#include <cstddef>
#include <utility>
namespace cds {
void shim_check_attached(const char* what);
inline void Initialize() {}
inline void Terminate() {}
namespace threading { struct Manager { static void attachThread(); static void detachThread(); }; }
namespace gc { struct HP { HP() = default; }; }
namespace opt { template <class T> struct buffer {}; template <class T> struct compare {}; namespace v { template <class T> struct initialized_dynamic_buffer {}; } }
namespace container {
template <class GC, class T>
class TreiberStack {  // nodes are reclaimed when the stack is destroyed
  struct Node { T v; Node* next; Node* all; };
  std::atomic<Node*> top_{nullptr}, all_{nullptr};
 public:
  TreiberStack() = default;
  TreiberStack(const TreiberStack&) = delete;
  ~TreiberStack() { for (Node* n = all_.load(); n;) { Node* m = n->all; delete n; n = m; } }
  bool push(const T& x) {
    shim_check_attached("TreiberStack::push");
    Node* n = new Node{x, nullptr, nullptr};
    n->all = all_.load(std::memory_order_relaxed); while (!all_.compare_exchange_weak(n->all, n, std::memory_order_acq_rel)) {}
    n->next = top_.load(std::memory_order_relaxed); while (!top_.compare_exchange_weak(n->next, n, std::memory_order_release, std::memory_order_relaxed)) {}
    return true;
  }
  bool pop(T& x) {
    shim_check_attached("TreiberStack::pop");
    Node* n = top_.load(std::memory_order_acquire);
    while (n && !top_.compare_exchange_weak(n, n->next, std::memory_order_acq_rel, std::memory_order_acquire)) {}
    if (!n) return false;
    x = n->v;
    return true;
  }
  bool empty() const { return top_.load(std::memory_order_relaxed) == nullptr; }
};
template <class T, class Tr> class MSPriorityQueue {};
namespace mspriority_queue { template <class... O> struct make_traits { using type = int; }; }
}  // namespace container
}  // namespace cds
