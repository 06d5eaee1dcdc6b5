#include "sched/fakeproc.h"
#include "sched/sched.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fp {
Str NextName;
std::function<void(Proc &)> Main;
namespace {
constexpr int FirstFD = 1 << 20, FirstPid = 1 << 28;
struct End {
  std::shared_ptr<Proc> P;
  Pipe *Which;
  bool Write;
};
std::map<int, End> FDs;
std::map<int, std::shared_ptr<Proc>> Procs;
int NextFD = FirstFD, NextPid = FirstPid;
End *end(int FD) {
  if (FD < FirstFD) return nullptr;
  auto I = FDs.find(FD);
  return I == FDs.end() ? nullptr : &I->second;
}
} // namespace
void reset() {
  FDs.clear(), Procs.clear();
  NextFD = FirstFD, NextPid = FirstPid;
}
int openDescriptors() { return FDs.size(); }
int unreaped() {
  int N = 0;
  for (auto &[K, P] : Procs) N += !P->Reaped;
  return N;
}
bool Proc::message(Str &Body) {
  while (true) {
    auto H = In.Data.find("\r\n\r\n");
    if (H != Str::npos) {
      size_t L = strtoull(In.Data.c_str() + strlen("Content-Length: "), nullptr, 10);
      if (In.Data.size() >= H + 4 + L) {
        Body = In.Data.substr(H + 4, L);
        In.Data.erase(0, H + 4 + L);
        return true;
      }
    }
    if (Dead || !In.WriterOpen) return false;
    size_t Had = In.Data.size();
    sched::block([this, Had] { return Dead || !In.WriterOpen || In.Data.size() > Had; }, "worker.read");
  }
}
void Proc::reply(const Str &Body) {
  if (!Dead) Out.Data += "Content-Length: " + std::to_string(Body.size()) + "\r\n\r\n" + Body;
}
void Proc::exit(int St) {
  if (Dead) return;
  Dead = true;
  Status = St;
  In.ReaderOpen = Out.WriterOpen = Err.WriterOpen = false;
}
} // namespace fp

namespace nixd {
int forkPiped(int &In, int &Out, int &Err) {
  using namespace fp;
  auto P = std::make_shared<Proc>();
  P->Pid = NextPid++;
  P->Name = NextName;
  NextName = "";
  Procs[P->Pid] = P;
  In = NextFD++, Out = NextFD++, Err = NextFD++;
  FDs[In] = {P, &P->In, true};
  FDs[Out] = {P, &P->Out, false};
  FDs[Err] = {P, &P->Err, false};
  sched::spawn([P] {
    if (!P->Dead) Main(*P);
    P->exit(0);
  }, "worker");
  return P->Pid;
}
} // namespace nixd

using namespace fp;
#undef fstat
#undef fcntl
extern "C" int plainFstat(int, struct stat *) asm("fstat");
extern "C" int plainFcntl(int, int, ...) asm("fcntl");
#define REAL(F) static auto Real = (decltype(&F))dlsym(RTLD_NEXT, #F)
extern "C" {
ssize_t read(int FD, void *B, size_t N) {
  if (FD < FirstFD) {
    REAL(read);
    return Real(FD, B, N);
  }
  End *E = end(FD);
  if (!E || E->Write) return errno = EBADF, -1;
  Pipe *P = E->Which;
  auto Keep = E->P;
  if (P->Data.empty() && P->WriterOpen) sched::block([P] { return !P->Data.empty() || !P->WriterOpen; }, "read");
  size_t L = std::min(N, P->Data.size());
  memcpy(B, P->Data.data(), L);
  P->Data.erase(0, L);
  return L;
}
ssize_t write(int FD, const void *B, size_t N) {
  if (FD < FirstFD) {
    REAL(write);
    return Real(FD, B, N);
  }
  End *E = end(FD);
  if (!E || !E->Write) return errno = EBADF, -1;
  if (!E->Which->ReaderOpen) return errno = EPIPE, -1;
  E->Which->Data.append((const char *)B, N);
  sched::point("write");
  return N;
}
int close(int FD) {
  if (FD < FirstFD) {
    REAL(close);
    return Real(FD);
  }
  End *E = end(FD);
  if (!E) return errno = EBADF, -1;
  (E->Write ? E->Which->WriterOpen : E->Which->ReaderOpen) = false;
  FDs.erase(FD);
  return 0;
}
int poll(pollfd *F, nfds_t N, int T) {
  bool Fake = false;
  for (nfds_t I = 0; I < N; ++I) Fake |= F[I].fd >= FirstFD;
  if (!Fake) {
    REAL(poll);
    return Real(F, N, T);
  }
  auto See = [F, N] {
    int R = 0;
    for (nfds_t I = 0; I < N; ++I) {
      F[I].revents = 0;
      if (F[I].fd < 0) continue;
      End *E = end(F[I].fd);
      if (!E) F[I].revents = POLLNVAL;
      else if (E->Write) {
        if (!E->Which->ReaderOpen) F[I].revents = POLLERR | (F[I].events & POLLOUT);
        else F[I].revents = F[I].events & POLLOUT;
      } else {
        if (!E->Which->Data.empty()) F[I].revents |= F[I].events & POLLIN;
        if (!E->Which->WriterOpen) F[I].revents |= POLLHUP;
      }
      R += F[I].revents != 0;
    }
    return R;
  };
  if (int R = See()) return R;
  if (T == 0) return 0;
  if (T < 0) sched::block([&] { return See() != 0; }, "poll");
  else sched::blockLate([&] { return See() != 0; }, "poll");
  return See();
}
int kill(pid_t P, int S) {
  if (P < FirstPid) {
    REAL(kill);
    return Real(P, S);
  }
  auto I = Procs.find(P);
  if (I == Procs.end() || I->second->Reaped) return errno = ESRCH, -1;
  if (S) I->second->exit(S);
  sched::point("kill");
  return 0;
}
pid_t waitpid(pid_t P, int *St, int Opt) {
  if (P < FirstPid) {
    REAL(waitpid);
    return Real(P, St, Opt);
  }
  auto I = Procs.find(P);
  if (I == Procs.end() || I->second->Reaped) return errno = ECHILD, -1;
  auto Q = I->second;
  if (!Q->Dead && (Opt & WNOHANG)) return 0;
  sched::block([Q] { return Q->Dead; }, "waitpid");
  if (Q->Reaped) return errno = ECHILD, -1;
  Q->Reaped = true;
  if (St) *St = Q->Status;
  return P;
}
static int (*RealFstat)(int, struct stat *);
int plainFstat(int FD, struct stat *S) {
  if (FD < FirstFD) {
    if (!RealFstat) RealFstat = (decltype(RealFstat))dlsym(RTLD_NEXT, "fstat");
    return RealFstat(FD, S);
  }
  memset(S, 0, sizeof *S);
  S->st_mode = S_IFIFO | 0600;
  S->st_blksize = 4096;
  return 0;
}
int fstat(int FD, struct stat *S) { return plainFstat(FD, S); }
int plainFcntl(int FD, int Cmd, ...) {
  va_list A;
  va_start(A, Cmd);
  void *Arg = va_arg(A, void *);
  va_end(A);
  if (FD < FirstFD) {
    static auto Real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl");
    return Real(FD, Cmd, Arg);
  }
  return 0;
}
int fcntl(int FD, int Cmd, ...) {
  va_list A;
  va_start(A, Cmd);
  void *Arg = va_arg(A, void *);
  va_end(A);
  return plainFcntl(FD, Cmd, Arg);
}
}
