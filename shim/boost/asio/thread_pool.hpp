// Stand-in for boost::asio's thread pool: every posted task becomes an engine
// thread, so that all interleavings (at lock granularity) are explored.
#pragma once
#include "sx_api.h"
#include <functional>
namespace boost { namespace asio {
class thread_pool {
public:
  explicit thread_pool(std::size_t) {}
  thread_pool() {}
  ~thread_pool() { sx_join(); }
  void join() { sx_join(); }
  void wait() { sx_join(); }
};
inline void sx_run_task(void *p) { (*(std::function<void()> *)p)(); }
template <class F> void post(thread_pool &, F f) { sx_thread(sx_run_task, new std::function<void()>(f)); }
template <class F> void dispatch(thread_pool &, F f) { sx_thread(sx_run_task, new std::function<void()>(f)); }
} }
