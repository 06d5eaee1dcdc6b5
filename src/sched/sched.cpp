#include "sched/sched.h"
#include <boost/asio/thread_pool.hpp>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <unistd.h>

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
} // namespace __cxxabiv1

#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_start_switch_fiber(void **, const void *, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#endif

// Saves the registers a call preserves on the stack at *From and goes on at To.
extern "C" void mcSwitch(void **From, void *To);
asm(R"(
.text
.p2align 4
.type mcSwitch, @function
mcSwitch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mcSwitch, .-mcSwitch
)");

namespace sched {
namespace {
constexpr size_t StackSize = 1024 * 1024;
struct Fiber {
  void *Ctx = nullptr; ///< its stack pointer
  void *Stack = nullptr;
  std::function<void()> Fn;
  bool Done = false, TimedOut = false, Timed = false, Idle = false, Late = false;
  void *Fake = nullptr;
  std::function<bool()> Wait;
  const char *What = "start";
  Str Name;
  uintptr_t Eh[2] = {0, 0};
  std::map<void *, int> *Tsd = nullptr;
};
std::vector<void *> StackPool;
std::vector<std::unique_ptr<Fiber>> Fibers;
int Cur = -1;
void *MainCtx;
bool Running = false, Abort = false;
Explorer *Ex = nullptr;
Outcome Out;
struct Dec {
  unsigned Chosen, N;
};
std::vector<Dec> Path; // decisions of the current schedule
size_t Depth = 0;
unsigned Preempted = 0;
std::set<void *> Locked;
int LateLast = 0, LateIdle = 0; // turns of waits whose time passes

void *newStack() {
  if (!StackPool.empty()) {
    void *P = StackPool.back();
    StackPool.pop_back();
#ifdef __SANITIZE_ADDRESS__
    __asan_unpoison_memory_region((char *)P + 4096, StackSize);
#endif
    return P;
  }
  void *P = mmap(nullptr, StackSize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (P == MAP_FAILED) abort();
  mprotect(P, 4096, PROT_NONE);
  return P;
}
unsigned decide(unsigned N) {
  if (N <= 1 || Ex->Single) return 0;
  ++Ex->Choices;
  if (Depth < Path.size()) {
    Path[Depth].N = N;
    if (Path[Depth].Chosen >= N) Path[Depth].Chosen = N - 1; // only if the program is not deterministic
    return Path[Depth++].Chosen;
  }
  Path.push_back({0, N});
  ++Depth;
  return 0;
}
bool ready(Fiber &F) { return !F.Done && (!F.Wait || F.Wait()); }

void switchTo(void **From, void *To, Fiber *Old, Fiber *New) {
  auto *G = (uintptr_t *)__cxxabiv1::__cxa_get_globals();
  if (Old) memcpy(Old->Eh, G, sizeof Old->Eh);
  if (New) memcpy(G, New->Eh, sizeof New->Eh);
  else memset(G, 0, sizeof(uintptr_t) * 2);
#ifdef __SANITIZE_ADDRESS__
  static void *MainFake;
  static const void *MainBottom;
  static size_t MainSize;
  if (!MainBottom) {
    pthread_attr_t A;
    void *B;
    pthread_getattr_np(pthread_self(), &A);
    pthread_attr_getstack(&A, &B, &MainSize);
    pthread_attr_destroy(&A);
    MainBottom = B;
  }
  __sanitizer_start_switch_fiber(Old ? &Old->Fake : &MainFake, New ? (char *)New->Stack + 4096 : MainBottom, New ? StackSize : MainSize);
  mcSwitch(From, To);
  __sanitizer_finish_switch_fiber(Old ? Old->Fake : MainFake, nullptr, nullptr);
#else
  mcSwitch(From, To);
#endif
}
void toMain() {
  Fiber *F = Fibers[Cur].get();
  switchTo(&F->Ctx, MainCtx, F, nullptr);
}
struct Aborted {};
/// Picks the next fiber. Called by the current one, which may be blocked.
void reschedule() {
  Fiber *Me = Fibers[Cur].get();
  ++Out.Steps;
  ++Ex->Steps;
  if (Out.Steps > Ex->MaxSteps) {
    Out.Limit = true;
    toMain();
  }
  std::vector<int> En;
  bool MeReady = ready(*Me) && !Me->Idle;
  if (MeReady) En.push_back(Cur);
  for (int I = 0; I < (int)Fibers.size(); ++I)
    if (I != Cur && !Fibers[I]->Idle && ready(*Fibers[I])) En.push_back(I);
  if (En.empty()) {
    // timeouts pass and idle fibers go on only when nothing else can
    for (int I = 0; I < (int)Fibers.size(); ++I)
      if (!Fibers[I]->Done && Fibers[I]->Timed) En.push_back(I);
    if (!En.empty())
      for (int I : En) Fibers[I]->TimedOut = true;
    else
      for (int I = 0; I < (int)Fibers.size(); ++I)
        if (!Fibers[I]->Done && Fibers[I]->Idle) {
          En.push_back(I);
          break;
        }
    // nothing but time can go on: let it, in turns, as long as something comes of that
    if (En.empty())
      for (int K = 1, N = Fibers.size(); K <= N; ++K) {
        int I = (LateLast + K) % N;
        if (Fibers[I]->Done || !Fibers[I]->Late) continue;
        if (++LateIdle > 2 * N) break;
        Fibers[I]->TimedOut = true;
        LateLast = I;
        En.push_back(I);
        break;
      }
  }
  if (En.empty()) {
    bool All = true;
    for (auto &F : Fibers)
      if (!F->Done) {
        All = false;
        Out.Note += (Out.Note.empty() ? "" : ", ") + F->Name + " waits at " + F->What;
      }
    Out.Deadlock = !All;
    toMain();
    return;
  }
  unsigned N = En.size();
  bool Counts = MeReady || Ex->Deviations;
  if (Counts && Preempted >= Ex->Preemptions) N = 1;
  unsigned C = decide(N);
  if (Counts && C) ++Preempted;
  int Next = En[C];
  Fibers[Next]->Idle = false;
  if (Next == Cur) return;
  if (Ex->Trace) fprintf(stderr, "  -> %d %s (%s)\n", Next, Fibers[Next]->Name.c_str(), Fibers[Next]->What);
  Fiber *Old = Me, *New = Fibers[Next].get();
  Cur = Next;
  switchTo(&Old->Ctx, New->Ctx, Old, New);
}
void trampoline() {
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  Fiber *F = Fibers[Cur].get();
  try {
    F->Fn();
  } catch (const std::exception &E) {
    Out.Thrown = Str(E.what()).empty() ? "exception" : E.what();
  } catch (...) {
    Out.Thrown = "exception";
  }
  F->Fn = nullptr;
  F->Done = true;
  LateIdle = 0;
  F->What = "done";
  if (!Out.Thrown.empty()) toMain();
  reschedule();
  abort();
}
} // namespace

bool inFiber() { return Running && Cur >= 0; }
int self() { return Cur; }
void point(const char *W) {
  if (!inFiber()) return;
  LateIdle = 0;
  Fibers[Cur]->What = W;
  if (Ex->Trace) fprintf(stderr, "%d %s: %s\n", Cur, Fibers[Cur]->Name.c_str(), W);
  reschedule();
}
void block(std::function<bool()> P, const char *W) {
  if (!inFiber()) {
    if (!P()) abort();
    return;
  }
  Fiber &F = *Fibers[Cur];
  if (!F.Late) LateIdle = 0;
  F.What = W;
  if (Ex->Trace) fprintf(stderr, "%d %s: %s\n", Cur, F.Name.c_str(), W);
  F.Wait = std::move(P);
  reschedule();
  F.Wait = nullptr;
}
bool blockOrTimeout(std::function<bool()> P, const char *W) {
  if (!inFiber()) return P();
  Fiber &F = *Fibers[Cur];
  F.Timed = true;
  F.TimedOut = false;
  auto Q = P;
  block(std::move(P), W);
  F.Timed = false;
  return Q();
}
bool blockLate(std::function<bool()> P, const char *W) {
  if (!inFiber()) return P();
  Fiber &F = *Fibers[Cur];
  if (P()) return true;
  F.Late = true;
  F.TimedOut = false;
  auto Q = P;
  block(std::move(P), W);
  F.Late = false;
  return Q();
}
void quiesce() {
  Fiber &F = *Fibers[Cur];
  F.Idle = true;
  F.What = "quiesce";
  reschedule();
}
int spawn(std::function<void()> Fn, const char *Name) {
  auto F = std::make_unique<Fiber>();
  F->Stack = newStack();
  F->Fn = std::move(Fn);
  F->Name = Name;
  auto *Top = (uintptr_t *)((char *)F->Stack + 4096 + StackSize);
  *--Top = 0;                       // return address of trampoline: none
  *--Top = (uintptr_t)trampoline;   // "ret" goes there, with the stack as after a call
  for (int I = 0; I < 6; ++I) *--Top = 0;
  --Top;
  uint32_t Csr;
  uint16_t Cw;
  asm volatile("stmxcsr %0\n fnstcw %1" : "=m"(Csr), "=m"(Cw));
  memcpy(Top, &Csr, 4);
  memcpy((char *)Top + 4, &Cw, 2);
  F->Ctx = Top;
  Fibers.push_back(std::move(F));
  int Id = Fibers.size() - 1;
  return Id;
}
bool done(int Id) { return Fibers[Id]->Done; }
unsigned choose(unsigned N, const char *W) {
  if (!inFiber()) return 0;
  return decide(N);
}
void giveUp(Str Why) {
  Out.Note = Why;
  Out.Limit = true;
  toMain();
  abort();
}

void Explorer::explore(const std::function<void()> &Main, const std::function<bool(const Outcome &)> &Check) {
  Ex = this;
  Path.clear();
  for (unsigned C : Fixed) Path.push_back({C, C + 1});
  while (true) {
    Out = {};
    Depth = 0;
    Preempted = 0;
    Locked.clear();
    Fibers.clear();
    LateLast = LateIdle = 0;
    mcpool::Hook = [](mcpool::Task T) {
      auto P = std::make_shared<mcpool::Task>(std::move(T));
      spawn([P]() mutable {
        auto Q = std::move(P);
        (*Q)();
        Q.reset();
      }, "task");
      point("post");
    };
    mcpool::JoinHook = [] {
      block([] {
        for (auto &F : Fibers)
          if (F->Name == "task" && !F->Done) return false;
        return true;
      }, "pool.join");
    };
    spawn(Main, "main");
    Running = true;
    Cur = 0;
    switchTo(&MainCtx, Fibers[0]->Ctx, nullptr, Fibers[0].get());
    Running = false;
    Cur = -1;
    ++Schedules;
    Path.resize(Depth);
    for (auto &D : Path) Out.Schedule += (Out.Schedule.empty() ? "" : ",") + std::to_string(D.Chosen);
    bool Clean = !Out.Deadlock && !Out.Limit && Out.Thrown.empty();
    // Stacks of fibers that did not finish are leaked on purpose: their objects live there.
    for (auto &F : Fibers)
      if (F->Done) StackPool.push_back(F->Stack);
    bool More = Check(Out);
    for (auto &F : Fibers)
      if (!F->Done) {
        new std::function<void()>(std::move(F->Fn));
        new std::function<bool()>(std::move(F->Wait));
      }
    if (!More || (!Clean && !More)) break;
    if (!Fixed.empty()) break;
    while (!Path.empty() && Path.back().Chosen + 1 >= Path.back().N) Path.pop_back();
    if (Path.empty()) break;
    ++Path.back().Chosen;
    if (Schedules >= MaxSchedules) {
      Capped = true;
      break;
    }
  }
  Fibers.clear();
  mcpool::Hook = nullptr;
  mcpool::JoinHook = nullptr;
}
} // namespace sched

// Locks and threads of the code under test.
using namespace sched;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *M) {
  if (!inFiber()) return __real_pthread_mutex_lock(M);
  block([M] { return !Locked.count(M); }, "lock");
  Locked.insert(M);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *M) {
  if (!inFiber()) return __real_pthread_mutex_trylock(M);
  point("trylock");
  return Locked.insert(M).second ? 0 : EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *M) {
  if (!inFiber()) return __real_pthread_mutex_unlock(M);
  Locked.erase(M);
  point("unlock");
  return 0;
}
int pthread_create(pthread_t *T, const pthread_attr_t *A, void *(*Fn)(void *), void *Arg) {
  if (!inFiber()) {
    static auto Real = (decltype(&pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    return Real(T, A, Fn, Arg);
  }
  int Id = spawn([=] { Fn(Arg); }, "thread");
  *T = (pthread_t)(0x10000 + Id);
  point("thread.start");
  return 0;
}
int pthread_join(pthread_t T, void **R) {
  if (!inFiber() || T < 0x10000 || T > 0x20000) {
    static auto Real = (decltype(&pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    return Real(T, R);
  }
  int Id = (int)T - 0x10000;
  block([Id] { return sched::done(Id); }, "join");
  if (R) *R = nullptr;
  return 0;
}
}
