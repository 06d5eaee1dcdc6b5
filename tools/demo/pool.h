#pragma once
// Stand-in for Boost's thread pool: one thread that runs the posted work in order.
#include <condition_variable>
#include <deque>
#include <llvm/ADT/FunctionExtras.h>
#include <mutex>
#include <thread>
namespace boost::asio {
namespace detail {
inline long default_thread_pool_size() { return 2; }
}
class thread_pool {
  std::mutex M;
  std::condition_variable V;
  std::deque<llvm::unique_function<void()>> Q;
  bool End = false;
  std::thread T;
  void loop() {
    while (true) {
      std::unique_lock L(M);
      V.wait(L, [&] { return End || !Q.empty(); });
      if (Q.empty()) return;
      auto F = std::move(Q.front());
      Q.pop_front();
      L.unlock();
      F();
    }
  }

public:
  thread_pool() : T([this] { loop(); }) {}
  explicit thread_pool(std::size_t) : thread_pool() {}
  ~thread_pool() { join(); }
  void add(llvm::unique_function<void()> F) {
    std::lock_guard L(M);
    Q.push_back(std::move(F));
    V.notify_one();
  }
  void join() {
    {
      std::lock_guard L(M);
      End = true;
      V.notify_one();
    }
    if (T.joinable()) T.join();
  }
  void stop() {}
};
template <class F> void post(thread_pool &P, F &&Fn) { P.add(llvm::unique_function<void()>(std::forward<F>(Fn))); }
} // namespace boost::asio
