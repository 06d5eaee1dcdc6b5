// A real nixd process under the check's control, and the client that talks to it.
#pragma once
#include "ref/json.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <llvm/Support/JSON.h>
#include <optional>
#include <poll.h>
#include <string>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pp {
using Str = std::string;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline Str show(const Value &V) {
  Str R;
  llvm::raw_string_ostream OS(R);
  OS << V;
  return R;
}
inline Str self() {
  char B[4096];
  ssize_t N = readlink("/proc/self/exe", B, sizeof B);
  return Str(B, N > 0 ? N : 0);
}
inline Str helper() {
  Str S = self();
  return S.substr(0, S.rfind('/')) + "/p_worker";
}
inline void spit(const Str &P, const Str &T) {
  int F = open(P.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  for (size_t I = 0; I < T.size();) {
    ssize_t N = write(F, T.data() + I, T.size() - I);
    if (N <= 0) break;
    I += N;
  }
  close(F);
}
inline Str slurp(const Str &P) {
  Str R;
  char B[65536];
  int F = open(P.c_str(), O_RDONLY | O_CLOEXEC);
  ssize_t N;
  while (F >= 0 && (N = read(F, B, sizeof B)) > 0) R.append(B, N);
  if (F >= 0) close(F);
  return R;
}
/// Children of a process that have a given state, or all of them.
inline std::vector<std::pair<int, char>> children(int Pid) {
  std::vector<std::pair<int, char>> R;
  Str T = "/proc/" + std::to_string(Pid) + "/task";
  DIR *D = opendir(T.c_str());
  if (!D) return R;
  while (auto *E = readdir(D)) {
    if (E->d_name[0] == '.') continue;
    Str C = slurp(T + "/" + E->d_name + "/children");
    for (char *P = C.data(); *P;) {
      int Id = strtol(P, &P, 10);
      while (*P == ' ') ++P;
      if (!Id) break;
      Str S = slurp("/proc/" + std::to_string(Id) + "/stat");
      auto I = S.rfind(')');
      R.push_back({Id, I == Str::npos ? '?' : S[I + 2]});
    }
  }
  closedir(D);
  return R;
}
inline int descriptors(int Pid) {
  DIR *D = opendir(("/proc/" + std::to_string(Pid) + "/fd").c_str());
  if (!D) return -1;
  int N = 0;
  while (auto *E = readdir(D)) N += E->d_name[0] != '.';
  closedir(D);
  return N;
}

struct Options {
  std::vector<Str> Args;
  std::vector<Str> Env; ///< NAME=VALUE
  Str Script;           ///< of the workers
  Str Worker;           ///< program of the workers, the scripted one if empty
  int Descriptors = 0;  ///< limit, 0 for none
  bool Middle = false;  ///< started by a process in between, the client
};

class Server {
public:
  Str Dir;
  int Pid = -1, Client = -1, In = -1, Out = -1;
  Str Buf;
  std::vector<Value> Msgs; ///< everything received
  Str Broken;
  bool Eof = false;
  std::optional<int> Status; ///< of waitpid
  Value Config = Object{};   ///< answer to workspace/configuration
  bool AnswerConfig = true;
  int ConfigAsked = 0;
  int64_t NextId = 1;
  double Limit = 30; ///< seconds to wait for anything

  Server(Str D, const Options &O) : Dir(std::move(D)) {
    unlink((Dir + "/pids").c_str()), unlink((Dir + "/errors").c_str()), unlink((Dir + "/go").c_str());
    if (DIR *L = opendir(Dir.c_str())) {
      while (auto *E = readdir(L))
        if (!strncmp(E->d_name, "log.", 4)) unlink((Dir + "/" + E->d_name).c_str());
      closedir(L);
    }
    spit(Dir + "/script", O.Script);
    int A[2], B[2], P[2];
    (void)!pipe2(A, O_CLOEXEC), (void)!pipe2(B, O_CLOEXEC), (void)!pipe2(P, O_CLOEXEC);
    fflush(nullptr);
    Client = fork();
    if (!Client) {
      if (O.Middle) {
        int N = fork();
        if (N) {
          (void)!write(P[1], &N, sizeof N);
          close(A[0]), close(A[1]), close(B[0]), close(B[1]);
          while (true) pause();
        }
      }
      if (!O.Middle) prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(A[0], 0), dup2(B[1], 1);
      int E = ::open((Dir + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(E, 2);
      for (int I = 3; I < 256; ++I) close(I);
      signal(SIGPIPE, SIG_DFL);
      clearenv();
      setenv("PATH", "/usr/bin:/bin", 1);
      setenv("HOME", Dir.c_str(), 1);
      setenv("PW_DIR", Dir.c_str(), 1);
      setenv("NIXD_ATTRSET_EVAL", (O.Worker.empty() ? helper() : O.Worker).c_str(), 1);
      for (auto &X : O.Env) putenv(strdup(X.c_str()));
      std::vector<Str> V = {"nixd", "--nixpkgs-worker-stderr=" + Dir + "/nixpkgs", "--option-worker-stderr=" + Dir, "--nixpkgs-expr=NIXPKGS", "--nixos-options-expr=NIXOS", "--log=error"};
      V.insert(V.end(), O.Args.begin(), O.Args.end());
      std::vector<char *> C;
      for (auto &X : V) C.push_back(X.data());
      C.push_back(nullptr);
      Str Exe = self();
      if (O.Descriptors) {
        rlimit L{(rlim_t)O.Descriptors, (rlim_t)O.Descriptors};
        setrlimit(RLIMIT_NOFILE, &L);
      }
      execv(Exe.c_str(), C.data());
      _exit(99);
    }
    close(A[0]), close(B[1]), close(P[1]);
    In = A[1], Out = B[0];
    fcntl(Out, F_SETFL, O_NONBLOCK);
    Pid = Client;
    if (O.Middle) (void)!read(P[0], &Pid, sizeof Pid);
    close(P[0]);
  }
  Server(const Server &) = delete;
  ~Server() {
    closeIn();
    if (Out >= 0) close(Out);
    if (Pid > 0 && !Status) {
      kill(Pid, SIGKILL);
      reap(5);
    }
    if (Client != Pid) {
      kill(Client, SIGKILL);
      waitpid(Client, nullptr, 0);
    }
    leftovers();
  }
  void closeIn() {
    if (In >= 0) close(In);
    In = -1;
  }
  /// Kills and counts the processes that nixd has left behind: they are ours now.
  int leftovers() {
    int N = 0;
    for (double T = now(); now() - T < 10;) {
      auto C = children(getpid());
      bool Any = false;
      for (auto [P, St] : C) {
        if (P == Client || P == Pid) continue;
        Any = true;
        if (St != 'Z') ++N, kill(P, SIGKILL);
        waitpid(P, nullptr, 0);
      }
      if (!Any) break;
    }
    return N;
  }
  bool reap(double Sec) {
    if (Status) return true;
    for (double T = now(); now() - T < Sec;) {
      int W;
      pid_t R = waitpid(Pid, &W, WNOHANG);
      if (R == Pid) {
        Status = W;
        return true;
      }
      pump(5);
    }
    return false;
  }
  bool dead() { return Eof; }
  void raw(const Str &T) {
    for (size_t P = 0; P < T.size() && In >= 0;) {
      pollfd F[2] = {{In, POLLOUT, 0}, {Out, POLLIN, 0}};
      if (poll(F, 2, Limit * 1000) <= 0) return;
      if (F[1].revents) {
        take();
        if (Eof) return;
      }
      if (F[0].revents & POLLERR) return;
      if (!(F[0].revents & POLLOUT)) continue;
      ssize_t N = write(In, T.data() + P, std::min<size_t>(T.size() - P, 4096));
      if (N <= 0) return;
      P += N;
    }
  }
  void send(const Value &M) {
    Str T = show(M);
    raw("Content-Length: " + std::to_string(T.size()) + "\r\n\r\n" + T);
  }
  void notify(llvm::StringRef Method, Value Params) { send(Object{{"jsonrpc", "2.0"}, {"method", Method}, {"params", std::move(Params)}}); }
  int64_t call(llvm::StringRef Method, Value Params) {
    int64_t Id = NextId++;
    send(Object{{"jsonrpc", "2.0"}, {"id", Id}, {"method", Method}, {"params", std::move(Params)}});
    return Id;
  }
  void take() {
    char B[65536];
    while (true) {
      ssize_t N = read(Out, B, sizeof B);
      if (N > 0) {
        Buf.append(B, N);
        continue;
      }
      if (N == 0) Eof = true;
      break;
    }
    while (Broken.empty()) {
      auto H = Buf.find("\r\n\r\n");
      if (H == Str::npos) break;
      static const Str Head = "Content-Length: ";
      char *E;
      size_t L = Buf.compare(0, Head.size(), Head) ? 0 : strtoull(Buf.c_str() + Head.size(), &E, 10);
      if (!L || E != Buf.c_str() + H) {
        Broken = "bad header: " + Buf.substr(0, H);
        break;
      }
      if (Buf.size() < H + 4 + L) break;
      auto V = llvm::json::parse(llvm::StringRef(Buf).substr(H + 4, L));
      if (!V) {
        Broken = "bad body: " + llvm::toString(V.takeError()) + ": " + Buf.substr(H + 4, std::min<size_t>(L, 300));
        break;
      }
      Buf.erase(0, H + 4 + L);
      Msgs.push_back(*V);
      auto *O = V->getAsObject();
      if (auto M = O->getString("method"); M && O->get("id")) {
        Value R = nullptr;
        if (*M == "workspace/configuration") {
          ++ConfigAsked;
          if (!AnswerConfig) continue;
          R = Array{Config};
        }
        if (In >= 0) send(Object{{"jsonrpc", "2.0"}, {"id", *O->get("id")}, {"result", std::move(R)}});
      }
    }
  }
  void pump(int Ms) {
    pollfd F{Out, POLLIN, 0};
    if (Eof) {
      usleep(1000);
      return;
    }
    if (poll(&F, 1, Ms) > 0) take();
  }
  /// Runs until the condition holds; false if it never does.
  bool until(const std::function<bool()> &F, double Sec = -1) {
    if (Sec < 0) Sec = Limit;
    for (double T = now();;) {
      if (F()) return true;
      if (Eof) return take(), F();
      if (now() - T > Sec) return false;
      pump(20);
    }
  }
  const Value *reply(int64_t Id, int *Count = nullptr) {
    const Value *R = nullptr;
    int N = 0;
    for (auto &M : Msgs)
      if (auto *O = M.getAsObject(); O && !O->get("method"))
        if (auto I = O->getInteger("id"); I && *I == Id) R = &M, ++N;
    if (Count) *Count = N;
    return R;
  }
  /// The answer to a call, null if there is none.
  const Value *await(int64_t Id, double Sec = -1) {
    until([&] { return reply(Id) != nullptr; }, Sec);
    return reply(Id);
  }
  Object caps() { return Object{{"workspace", Object{{"configuration", true}}}, {"window", Object{{"workDoneProgress", true}}}}; }
  const Value *initialize() {
    auto *R = await(call("initialize", Object{{"processId", nullptr}, {"rootUri", nullptr}, {"capabilities", caps()}}));
    if (R) notify("initialized", Object{});
    return R;
  }
  void open(const Str &Uri, const Str &Text, int64_t Version = 1) {
    notify("textDocument/didOpen", Object{{"textDocument", Object{{"uri", Uri}, {"languageId", "nix"}, {"version", Version}, {"text", Text}}}});
  }
  Str exitText() {
    if (!Status) return "still running";
    if (WIFEXITED(*Status)) return "exit status " + std::to_string(WEXITSTATUS(*Status));
    return "killed by signal " + std::to_string(WTERMSIG(*Status));
  }
  Str errors() {
    Str E = slurp(Dir + "/stderr");
    return E.size() > 1500 ? E.substr(0, 700) + "\n...\n" + E.substr(E.size() - 800) : E;
  }
};
inline Object pos(int64_t L, int64_t C) { return Object{{"line", L}, {"character", C}}; }
inline Object at(const Str &Uri, int64_t L, int64_t C) { return Object{{"textDocument", Object{{"uri", Uri}}}, {"position", pos(L, C)}}; }
} // namespace pp
