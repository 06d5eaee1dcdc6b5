#pragma once
// Stand-in for Boost's thread pool, under the checks' control: posted work is
// kept in a queue that the check drains (plain checks), or becomes a thread of
// the controlled scheduler (see mc/sched.h).
#include <cstddef>
#include <deque>
#include <llvm/ADT/FunctionExtras.h>

namespace mcpool {
using Task = llvm::unique_function<void()>;
inline std::deque<Task> Queue;
inline void (*Hook)(Task) = nullptr; ///< takes the task instead of the queue
inline void (*JoinHook)() = nullptr;     ///< waits for the tasks it took
inline unsigned long Posted = 0;
} // namespace mcpool

namespace boost::asio {
namespace detail {
inline long default_thread_pool_size() { return 2; }
} // namespace detail
class thread_pool {
public:
  thread_pool() = default;
  explicit thread_pool(std::size_t) {}
  void join() {
    if (mcpool::JoinHook) mcpool::JoinHook();
  }
  void stop() {}
  void wait() {}
};
template <class F> void post(thread_pool &, F &&Fn) {
  ++mcpool::Posted;
  mcpool::Task T(std::forward<F>(Fn));
  if (mcpool::Hook)
    mcpool::Hook(std::move(T));
  else
    mcpool::Queue.push_back(std::move(T));
}
} // namespace boost::asio
