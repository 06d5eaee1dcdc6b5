// Exhaustive bounded explorer: the common driver of every check.
//
// A check describes its state space as a list of Spaces. A Space is a finite,
// indexable set of cases (strings); the driver evaluates *every* case of every
// space, spread over forked workers. A worker that dies (signal, sanitizer,
// assertion) or makes no progress costs exactly the case it was working on,
// which is recorded as a failure of that case, and the rest of the space is
// still covered. Every failure is replayed in a fresh process before it is
// believed, and written out as a file that --replay runs again.
#pragma once

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" __attribute__((used)) inline const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=6:quarantine_size_mb=16";
}
extern "C" __attribute__((used)) inline const char *__ubsan_default_options() {
  return "print_stacktrace=1:exitcode=77";
}

namespace mc {

using Str = std::string;

inline uint64_t hash64(std::string_view S, uint64_t H = 1469598103934665603ull) {
  for (unsigned char C : S) {
    H ^= C;
    H *= 1099511628211ull;
  }
  H ^= H >> 29;
  return H;
}

/// Makes arbitrary bytes printable, reversibly.
inline Str esc(std::string_view S) {
  Str R;
  char B[8];
  for (unsigned char C : S) {
    if (C == '\\')
      R += "\\\\";
    else if (C == '\n')
      R += "\\n";
    else if (C == '\r')
      R += "\\r";
    else if (C == '\t')
      R += "\\t";
    else if (C < 32 || C >= 127) {
      snprintf(B, sizeof B, "\\x%02x", C);
      R += B;
    } else
      R += (char)C;
  }
  return R;
}
inline Str jesc(std::string_view S) {
  Str R = "\"";
  for (char C : esc(S)) {
    if (C == '"' || C == '\\')
      R += '\\';
    R += C;
  }
  return R + "\"";
}

struct Space {
  Str Name;
  Str Rule; ///< how the cases are made; goes to the evidence
  uint64_t Size = 0;
  std::function<Str(uint64_t)> At;
};

/// A space from an explicit list.
inline Space listSpace(Str Name, Str Rule, std::vector<Str> Cases) {
  auto P = std::make_shared<std::vector<Str>>(std::move(Cases));
  return {std::move(Name), std::move(Rule), P->size(), [P](uint64_t I) { return (*P)[I]; }};
}

/// All sequences over Alphabet of length Min..Max, joined by Sep.
inline Space seqSpace(Str Name, Str Rule, std::vector<Str> Alphabet, unsigned Min, unsigned Max, Str Sep = "",
                      Str Pre = "", Str Post = "") {
  uint64_t N = 0, K = Alphabet.size();
  std::vector<uint64_t> Cum;
  for (unsigned L = Min; L <= Max; ++L) {
    uint64_t P = 1;
    for (unsigned J = 0; J < L; ++J)
      P *= K;
    Cum.push_back(P);
    N += P;
  }
  auto A = std::make_shared<std::vector<Str>>(std::move(Alphabet));
  return {std::move(Name), std::move(Rule), N, [=](uint64_t I) {
            unsigned L = Min;
            for (uint64_t P : Cum) {
              if (I < P)
                break;
              I -= P;
              ++L;
            }
            std::vector<unsigned> D(L);
            for (unsigned J = L; J-- > 0;) {
              D[J] = I % K;
              I /= K;
            }
            Str R = Pre;
            for (unsigned J = 0; J < L; ++J) {
              if (J)
                R += Sep;
              R += (*A)[D[J]];
            }
            return R + Post;
          }};
}

struct FailRec {
  unsigned SpaceIdx;
  uint64_t Idx;
  Str Kind, Detail, Case, Known;
};

static constexpr unsigned MaxWorkers = 16;
static constexpr unsigned MaxCounters = 24;
static constexpr unsigned NoteLen = 8192;

struct WorkerShm {
  std::atomic<uint64_t> Tick;
  std::atomic<uint64_t> Cur;      // global index of the case being evaluated
  std::atomic<uint64_t> ChunkEnd; // global
  std::atomic<uint32_t> Phase;    // 0 idle, 1 in case, 2 done
  uint64_t Counters[MaxCounters];
  uint64_t Evals;
  char Note[NoteLen]; // replayable description of what runs now
  uint32_t NoteSize;
};
struct Shm {
  std::atomic<uint64_t> Next;
  std::atomic<uint32_t> Stop;
  WorkerShm W[MaxWorkers];
};

class Check;

class Ctx {
public:
  Check *C = nullptr;
  WorkerShm *W = nullptr;
  unsigned SpaceIdx = 0;
  uint64_t Idx = 0;
  Str SpaceName;
  Str Case;
  std::vector<FailRec> Fails;
  std::unordered_set<uint64_t> Outcomes;
  std::vector<Str> Samples;

  void tick() {
    if (W)
      W->Tick.fetch_add(1, std::memory_order_relaxed);
  }
  /// What is running now, as a case string that --replay accepts.
  void current(std::string_view S) {
    tick();
    CurCase = S;
    if (!W)
      return;
    uint32_t N = std::min<size_t>(S.size(), NoteLen);
    memcpy(W->Note, S.data(), N);
    W->NoteSize = N;
  }
  void add(unsigned Counter, uint64_t N = 1) {
    if (W)
      W->Counters[Counter] += N;
    else
      Local[Counter] += N;
  }
  void outcome(std::string_view S) {
    if (Outcomes.size() < 400000)
      Outcomes.insert(hash64(S));
  }
  /// Records a violation of the property by the current case. Known names a
  /// listed finding that explains exactly this outcome, if any.
  void fail(Str Kind, Str Detail, Str Known = "") {
    Fails.push_back({SpaceIdx, Idx, std::move(Kind), std::move(Detail), CurCase, std::move(Known)});
  }
  bool failed() const { return !Fails.empty(); }
  uint64_t Local[MaxCounters] = {};
  Str CurCase;
};

class Check {
public:
  Str Id;
  Str Level = "exploration";
  Str Rule;                    ///< overall rule for evidence
  std::vector<Str> Counters;   ///< names; "states","transitions",... land in coverage
  std::vector<Str> Assumptions;
  std::vector<Str> Bounds;     ///< free-text, per tier
  std::vector<Space> Spaces;
  std::function<void(Ctx &, const Str &Space, const Str &Case)> Eval;
  std::function<void()> WorkerInit; ///< run once in every worker process
  std::map<Str, Str> Extra;    ///< additional coverage fields (raw JSON)
  double HangS = 20;
  /// The cases involve processes of their own and real time: what is not
  /// seen again does not count.
  bool Timing = false;
  double BudgetS = 300;
  unsigned Chunk = 0;
  unsigned Workers = 0;
  uint64_t MaxMem = 0; ///< RLIMIT_AS per worker, 0 for none
  bool quick() const { return Tier == "quick"; }
  Str Tier = "quick";

  Check(Str Id, int argc, char **argv) : Id(std::move(Id)) {
    if (const char *T = getenv("VERIF_TIER"))
      Tier = T;
    for (int I = 1; I < argc; ++I) {
      Str A = argv[I];
      if (A == "--tier" && I + 1 < argc)
        Tier = argv[++I];
      else if (A == "--replay" && I + 1 < argc)
        Replay = argv[++I];
      else if (A == "--only" && I + 1 < argc)
        Only = argv[++I];
      else if (A == "--case" && I + 1 < argc)
        OneCase = unesc(argv[++I]), HasOne = true;
      else if (A == "--list")
        List = true;
      else if (A == "--all-fails")
        AllFails = true;
      else if (A == "--workers" && I + 1 < argc)
        Workers = atoi(argv[++I]);
      else if (A == "--dump" && I + 1 < argc)
        DumpFile = argv[++I];
    }
    if (const char *B = getenv("VERIF_BUDGET"))
      ForcedBudget = atof(B);
  }

  int run();

private:
  Str Replay, Only, OneCase, DumpFile;
  bool List = false, AllFails = false, HasOne = false;
  double ForcedBudget = 0;
  Shm *S = nullptr;
  Str Tmp;
  std::vector<uint64_t> Base;
  std::map<Str, Str> KnownFindings; // name -> text
  std::unordered_map<Str, Str> KnownCases; // kind:hash -> finding

  static Str unesc(const Str &S) {
    Str R;
    for (size_t I = 0; I < S.size(); ++I) {
      if (S[I] == '\\' && I + 1 < S.size()) {
        char C = S[++I];
        if (C == 'n')
          R += '\n';
        else if (C == 'r')
          R += '\r';
        else if (C == 't')
          R += '\t';
        else if (C == 'x' && I + 2 < S.size()) {
          R += (char)strtol(S.substr(I + 1, 2).c_str(), nullptr, 16);
          I += 2;
        } else
          R += C;
      } else
        R += S[I];
    }
    return R;
  }

  void worker(unsigned Wi, uint64_t From, uint64_t To);
  void evalOne(Ctx &X, unsigned Sp, uint64_t I, const Str &Case) {
    X.SpaceIdx = Sp;
    X.Idx = I;
    X.SpaceName = Spaces[Sp].Name;
    X.Case = Case;
    X.CurCase = Case;
    if (X.W)
      X.current(Case);
    Eval(X, Spaces[Sp].Name, Case);
  }
  Str verifDir() {
    if (const char *V = getenv("VERIF_DIR"))
      return V;
    return "/verif";
  }
  void loadKnown();
  static Str readFile(const Str &P) {
    std::ifstream F(P, std::ios::binary);
    std::stringstream SS;
    SS << F.rdbuf();
    return SS.str();
  }
  /// Runs one case alone. Returns the kinds that failed.
  std::vector<FailRec> isolated(unsigned Sp, uint64_t Idx, const Str &Case, double Limit, unsigned Lead = 0);
  Str classifyDeath(int Status, const Str &Err);
};

inline void Check::loadKnown() {
  // known_findings.txt: "finding: property=P03 name=<name> <text>" or
  // "case: property=P03 name=<name> <kind>:<hash>" or "fixed: ..." (ignored)
  for (const Str &File : {verifDir() + "/known_findings.txt", verifDir() + "/known/" + Id + ".cases"}) {
    std::ifstream F(File);
    Str L;
    while (std::getline(F, L)) {
      auto Get = [&](const char *K) {
        auto P = L.find(Str(K) + "=");
        if (P == Str::npos)
          return Str();
        P += strlen(K) + 1;
        return L.substr(P, L.find(' ', P) - P);
      };
      if (L.rfind("finding:", 0) == 0 && Get("property") == Id)
        KnownFindings[Get("name")] = L.substr(L.find("name=") + 5 + Get("name").size());
      else if (L.rfind("case:", 0) == 0 && Get("property") == Id)
        KnownCases[L.substr(L.rfind(' ') + 1)] = Get("name");
    }
  }
}

inline Str Check::classifyDeath(int Status, const Str &Err) {
  if (Err.find("AddressSanitizer") != Str::npos)
    return "memory-error";
  if (Err.find("runtime error:") != Str::npos)
    return "undefined-behaviour";
  if (Err.find("Assertion") != Str::npos)
    return "assertion";
  if (WIFSIGNALED(Status))
    return "signal-" + std::to_string(WTERMSIG(Status));
  return "exit-" + std::to_string(WEXITSTATUS(Status));
}

inline void writeFail(FILE *F, const FailRec &R) {
  auto W = [&](const Str &T) {
    uint64_t N = T.size();
    fwrite(&N, 8, 1, F);
    fwrite(T.data(), 1, N, F);
  };
  uint64_t A[2] = {R.SpaceIdx, R.Idx};
  fwrite(A, 8, 2, F);
  W(R.Kind);
  W(R.Detail.substr(0, 4000));
  W(R.Case);
  W(R.Known);
  fflush(F);
}
inline void readFails(const Str &P, std::vector<FailRec> &Out) {
  FILE *F = fopen(P.c_str(), "rb");
  if (!F)
    return;
  uint64_t A[2];
  auto R = [&](Str &T) {
    uint64_t N;
    if (fread(&N, 8, 1, F) != 1 || N > (1u << 26))
      return false;
    T.resize(N);
    return N == 0 || fread(T.data(), 1, N, F) == N;
  };
  while (fread(A, 8, 2, F) == 2) {
    FailRec X;
    X.SpaceIdx = A[0];
    X.Idx = A[1];
    if (!R(X.Kind) || !R(X.Detail) || !R(X.Case) || !R(X.Known))
      break;
    Out.push_back(std::move(X));
  }
  fclose(F);
}

inline void Check::worker(unsigned Wi, uint64_t From, uint64_t To) {
  WorkerShm &W = S->W[Wi];
  Str P = Tmp + "/w" + std::to_string(Wi);
  int E = open((P + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(E, 2);
  close(E);
  if (MaxMem) {
    rlimit L{MaxMem, MaxMem};
    setrlimit(RLIMIT_AS, &L);
  }
  rlimit L0{0, 0};
  setrlimit(RLIMIT_CORE, &L0);
  FILE *FF = fopen((P + ".fails").c_str(), "ab");
  std::map<Str, unsigned> PerKind;
  uint64_t Total = Base.back();
  Ctx X;
  X.C = this;
  X.W = &W;
  // Enough chunks to balance, few enough to keep contention low.
  uint64_t Ch = Chunk ? Chunk : std::max<uint64_t>(1, std::min<uint64_t>(512, Total / (Workers * 64)));
  unsigned Sp = 0;
  if (WorkerInit)
    WorkerInit();
  while (true) {
    if (From >= To) {
      if (S->Stop.load())
        break;
      From = S->Next.fetch_add(Ch);
      if (From >= Total)
        break;
      To = std::min(Total, From + Ch);
    }
    W.ChunkEnd = To;
    for (; From < To; ++From) {
      if (S->Stop.load(std::memory_order_relaxed))
        break;
      while (From >= Base[Sp + 1])
        ++Sp;
      while (From < Base[Sp])
        --Sp;
      W.Cur = From;
      W.Phase = 1;
      Str Case = Spaces[Sp].At(From - Base[Sp]);
      evalOne(X, Sp, From - Base[Sp], Case);
      W.Evals++;
      for (auto &F : X.Fails) {
        auto &N = PerKind[F.Kind + "\1" + F.Known];
        if (++N <= 300 || AllFails)
          writeFail(FF, F);
      }
      X.Fails.clear();
    }
    if (S->Stop.load())
      break;
  }
  fclose(FF);
  FILE *O = fopen((P + ".out").c_str(), "ab");
  for (uint64_t H : X.Outcomes)
    fwrite(&H, 8, 1, O);
  fclose(O);
  FILE *KF = fopen((P + ".kinds").c_str(), "ab");
  for (auto &[K, N] : PerKind)
    fprintf(KF, "%u %s\n", N, K.c_str());
  fclose(KF);
  W.Phase = 2;
  // _exit: the process under test may own threads or static state that a
  // normal exit would trip over.
  _exit(0);
}

/// \p Lead cases before it are run first, for failures that depend on them.
inline std::vector<FailRec> Check::isolated(unsigned Sp, uint64_t Idx, const Str &Case, double Limit, unsigned Lead) {
  Str P = Tmp + "/iso";
  unlink((P + ".fails").c_str());
  fflush(stdout);
  pid_t Pid = fork();
  if (Pid == 0) {
    setpgid(0, 0);
    int E = open((P + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(E, 2);
    if (MaxMem) {
      rlimit L{MaxMem, MaxMem};
      setrlimit(RLIMIT_AS, &L);
    }
    rlimit L0{0, 0};
    setrlimit(RLIMIT_CORE, &L0);
    if (WorkerInit)
      WorkerInit();
    FILE *FF = fopen((P + ".fails").c_str(), "wb");
    Ctx X;
    X.C = this;
    auto *W = new WorkerShm();
    X.W = W;
    for (uint64_t I = Idx - std::min<uint64_t>(Idx, Lead); I < Idx; ++I)
      evalOne(X, Sp, I, Spaces[Sp].At(I));
    X.Fails.clear();
    evalOne(X, Sp, Idx, Case);
    for (auto &F : X.Fails)
      writeFail(FF, F);
    fclose(FF);
    _exit(0);
  }
  auto T0 = std::chrono::steady_clock::now();
  int St = 0;
  std::vector<FailRec> R;
  while (true) {
    pid_t Q = waitpid(Pid, &St, WNOHANG);
    if (Q == Pid)
      break;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > Limit) {
      kill(-Pid, SIGKILL);
      kill(Pid, SIGKILL);
      waitpid(Pid, &St, 0);
      R.push_back({Sp, Idx, "hang", "no result after " + std::to_string((int)Limit) + " s running alone", Case, ""});
      return R;
    }
    usleep(1000);
  }
  kill(-Pid, SIGKILL); // children the case may have left behind
  if (WIFEXITED(St) && WEXITSTATUS(St) == 0) {
    readFails(P + ".fails", R);
    return R;
  }
  Str Err = readFile(P + ".err");
  R.push_back({Sp, Idx, classifyDeath(St, Err), Err.substr(0, 3000), Case, ""});
  return R;
}

inline int Check::run() {
  auto T0 = std::chrono::steady_clock::now();
  auto Now = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGPIPE, SIG_IGN);
  if (!Only.empty())
    std::erase_if(Spaces, [&](const Space &X) { return X.Name.find(Only) == Str::npos; });
  if (List) {
    for (auto &X : Spaces)
      printf("%-24s %12llu  %s\n", X.Name.c_str(), (unsigned long long)X.Size, X.Rule.c_str());
    return 0;
  }
  char TmpT[] = "/tmp/mcXXXXXX";
  Tmp = mkdtemp(TmpT);
  loadKnown();
  if (ForcedBudget > 0)
    BudgetS = ForcedBudget;
  auto SpaceOf = [&](const Str &N) {
    for (unsigned I = 0; I < Spaces.size(); ++I)
      if (Spaces[I].Name == N)
        return I;
    return 0u;
  };
  auto Cleanup = [&] {
    if (Tmp.rfind("/tmp/mc", 0) == 0)
      (void)!system(("rm -rf " + Tmp).c_str());
  };

  if (!Replay.empty() || HasOne) {
    Str Sp = Spaces[0].Name, Case = OneCase;
    if (!Replay.empty()) {
      Str T = readFile(Replay);
      auto P = T.find("\n---\n");
      Case = T.substr(P + 5);
      auto Q = T.find("space: ");
      Sp = T.substr(Q + 7, T.find('\n', Q) - Q - 7);
    } else if (!Only.empty())
      Sp = Spaces[0].Name;
    auto R = isolated(SpaceOf(Sp), 0, Case, 60);
    for (auto &F : R)
      printf("FAIL kind=%s known=%s\n%s\n", F.Kind.c_str(), F.Known.c_str(), F.Detail.c_str());
    printf(R.empty() ? "replay: property holds on this case\n" : "replay: %zu failure(s)\n", R.size());
    Cleanup();
    return R.empty() ? 0 : 1;
  }

  Base.assign(1, 0);
  for (auto &X : Spaces)
    Base.push_back(Base.back() + X.Size);
  uint64_t Total = Base.back();
  if (!Workers)
    Workers = std::max(1l, std::min<long>(8, sysconf(_SC_NPROCESSORS_ONLN)));
  S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (S) Shm();
  std::vector<pid_t> Pids(Workers);
  std::vector<uint64_t> LastTick(Workers, 0);
  std::vector<double> LastT(Workers, 0);
  fflush(stdout);
  auto Spawn = [&](unsigned W, uint64_t From, uint64_t To) {
    S->W[W].Phase = 0;
    pid_t P = fork();
    if (P == 0) {
      setpgid(0, 0);
      worker(W, From, To);
    }
    setpgid(P, P);
    Pids[W] = P;
    LastTick[W] = S->W[W].Tick;
    LastT[W] = Now();
  };
  for (unsigned W = 0; W < Workers; ++W)
    Spawn(W, 0, 0);
  std::vector<FailRec> Deaths;
  unsigned Alive = Workers;
  bool Capped = false;
  Str CapWhy;
  while (Alive) {
    for (unsigned W = 0; W < Workers; ++W) {
      if (!Pids[W])
        continue;
      int St;
      pid_t Q = waitpid(Pids[W], &St, WNOHANG);
      bool Hang = false;
      if (Q == 0) {
        uint64_t T = S->W[W].Tick;
        if (T != LastTick[W]) {
          LastTick[W] = T;
          LastT[W] = Now();
        } else if (S->W[W].Phase == 1 && Now() - LastT[W] > HangS) {
          Hang = true;
          kill(-Pids[W], SIGKILL);
          kill(Pids[W], SIGKILL);
          waitpid(Pids[W], &St, 0);
        } else
          continue;
        if (!Hang)
          continue;
      }
      kill(-Pids[W], SIGKILL);
      if (!Hang && WIFEXITED(St) && WEXITSTATUS(St) == 0) {
        Pids[W] = 0;
        --Alive;
        continue;
      }
      WorkerShm &X = S->W[W];
      uint64_t G = X.Cur;
      unsigned Sp = 0;
      while (G >= Base[Sp + 1])
        ++Sp;
      Str Err = readFile(Tmp + "/w" + std::to_string(W) + ".err");
      if (X.Phase == 1 || Hang)
        Deaths.push_back({Sp, G - Base[Sp], Hang ? "hang" : classifyDeath(St, Err), Err.substr(0, 3000),
                          Str(X.Note, X.NoteSize), ""});
      else {
        fprintf(stderr, "worker died outside any case: %s\n", Err.substr(0, 2000).c_str());
        Cleanup();
        return 4;
      }
      if (Deaths.size() >= 400) {
        Capped = true;
        CapWhy = "400 crashing cases";
        S->Stop = 1;
        Pids[W] = 0;
        --Alive;
        continue;
      }
      Spawn(W, G + 1, X.ChunkEnd);
    }
    if (Now() > BudgetS && !S->Stop) {
      S->Stop = 1;
      if (S->Next.load() < Total) {
        Capped = true;
        CapWhy = "time budget of " + std::to_string((int)BudgetS) + " s";
      }
    }
    usleep(2000);
  }
  // ---- merge
  std::vector<FailRec> Fails;
  std::unordered_set<uint64_t> Outs;
  std::map<Str, uint64_t> KindCount;
  uint64_t Cnt[MaxCounters] = {}, Evals = 0;
  for (unsigned W = 0; W < Workers; ++W) {
    Str P = Tmp + "/w" + std::to_string(W);
    readFails(P + ".fails", Fails);
    if (FILE *F = fopen((P + ".out").c_str(), "rb")) {
      uint64_t H;
      while (fread(&H, 8, 1, F) == 1)
        Outs.insert(H);
      fclose(F);
    }
    std::ifstream KF(P + ".kinds");
    uint64_t N;
    Str K;
    while (KF >> N && KF.get() && std::getline(KF, K))
      KindCount[K] += N;
    for (unsigned I = 0; I < Counters.size(); ++I)
      Cnt[I] += S->W[W].Counters[I];
    Evals += S->W[W].Evals;
  }
  std::sort(Fails.begin(), Fails.end(), [](auto &A, auto &B) {
    return std::tie(A.SpaceIdx, A.Idx, A.Kind) < std::tie(B.SpaceIdx, B.Idx, B.Kind);
  });
  std::sort(Deaths.begin(), Deaths.end(),
            [](auto &A, auto &B) { return std::tie(A.SpaceIdx, A.Idx) < std::tie(B.SpaceIdx, B.Idx); });
  for (auto &D : Deaths)
    KindCount[D.Kind + "\1"]++;
  // Known or not, by kind. The first few of each kind are replayed.
  std::map<Str, uint64_t> KnownSeen;
  std::vector<FailRec> Unknown;
  std::map<Str, unsigned> Tried;
  auto KeyOf = [&](const FailRec &F) {
    char B[32];
    snprintf(B, sizeof B, "%016llx", (unsigned long long)hash64(F.Case));
    return F.Kind + ":" + B;
  };
  FILE *Dump = DumpFile.empty() ? nullptr : fopen(DumpFile.c_str(), "w");
  unsigned Unrepro = 0;
  Str UnreproText;
  auto Handle = [&](FailRec &F, bool Death) {
    if (Dump)
      fprintf(Dump, "%s\t%s\t%s\t%s\n", KeyOf(F).c_str(), F.Known.c_str(), esc(F.Case).c_str(),
              esc(F.Detail.substr(0, 300)).c_str());
    Str Known = F.Known;
    if (Known.empty()) {
      auto It = KnownCases.find(KeyOf(F));
      if (It != KnownCases.end())
        Known = It->second;
    }
    if (!Known.empty() && KnownFindings.count(Known)) {
      KnownSeen[Known]++;
      return;
    }
    auto &N = Tried[F.Kind];
    if (N >= 3 && !AllFails)
      return;
    double Limit = F.Kind == "hang" ? HangS * 3 : std::max(60.0, HangS * 2);
    std::vector<FailRec> R;
    // Alone; then again where time matters, else after the cases before it.
    std::vector<unsigned> Leads = F.Kind == "hang" ? std::vector<unsigned>{0} : Timing ? std::vector<unsigned>{0, 0, 0, 0} : std::vector<unsigned>{0, 64, 512};
    for (unsigned Lead : Leads) {
      R = isolated(F.SpaceIdx, F.Idx, F.Case, Limit, Lead);
      for (auto &Q : R)
        if (Q.Kind == F.Kind || Death) {
          ++N;
          if (!Q.Known.empty() && KnownFindings.count(Q.Known)) {
            KnownSeen[Q.Known]++;
            return;
          }
          F.Kind = Q.Kind;
          F.Detail = Q.Detail;
          if (Lead) F.Detail += " (after the " + std::to_string(Lead) + " cases before it)";
          Unknown.push_back(F);
          return;
        }
    }
    if (R.empty() && F.Kind == "hang")
      return; // slow machine, not a hang
    ++Unrepro;
    UnreproText = F.Kind + " " + esc(F.Case.substr(0, 300)) + ": " + F.Detail.substr(0, 500);
  };
  for (auto &F : Deaths)
    Handle(F, true);
  for (auto &F : Fails)
    Handle(F, false);
  if (Dump)
    fclose(Dump);
  // ---- report
  Str RDir = verifDir() + "/replays";
  mkdir(RDir.c_str(), 0755);
  unsigned NR = 0;
  for (auto &F : Unknown) {
    Str P = RDir + "/" + Id + "-" + std::to_string(NR++) + ".txt";
    std::ofstream O(P, std::ios::binary);
    O << "check: " << Id << "\nspace: " << Spaces[F.SpaceIdx].Name << "\nkind: " << F.Kind << "\n" << F.Detail
      << "\n---\n"
      << F.Case;
    O.close();
    printf("case (%s): %s\n  %s\n", F.Kind.c_str(), esc(F.Case).substr(0, 1500).c_str(), F.Detail.substr(0, 1200).c_str());
    printf("VIOLATION property=%s replay=%s\n", Id.c_str(), P.c_str());
    if (NR >= 12 && !AllFails)
      break;
  }
  for (auto &[K, N] : KnownSeen)
    printf("KNOWN-FINDING: property=%s %s:%s (%llu cases)\n", Id.c_str(), K.c_str(), KnownFindings[K].c_str(),
           (unsigned long long)std::max<uint64_t>(N, [&] {
             uint64_t M = 0;
             for (auto &[Q, C2] : KindCount)
               if (Q.size() > K.size() && Q.substr(Q.find('\1') + 1) == K)
                 M += C2;
             return M;
           }()));
  double Wall = Now();
  // ---- evidence
  std::ostringstream E;
  uint64_t Covered = std::min(S->Next.load(), Total);
  E << "{\"property\":\"" << Id << "\",\"tier\":\"" << Tier << "\",\"seed\":" << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1)
    << ",\"level\":\"" << Level << "\",\"coverage\":{\"evaluations\":" << Evals
    << ",\"distinct_nontrivial\":" << Outs.size() << ",\"rule\":" << jesc(Rule + " Non-trivial: distinct observed outcome.") << ",\"exhaustive\":" << (Capped ? "false" : "true");
  if (Capped)
    E << ",\"capped\":" << jesc(CapWhy + "; " + std::to_string(Covered) + " of " + std::to_string(Total) + " cases");
  for (unsigned I = 0; I < Counters.size(); ++I)
    E << ",\"" << Counters[I] << "\":" << Cnt[I];
  for (auto &[K, V] : Extra)
    E << ",\"" << K << "\":" << V;
  E << ",\"spaces\":[";
  for (unsigned I = 0; I < Spaces.size(); ++I)
    E << (I ? "," : "") << "{\"name\":" << jesc(Spaces[I].Name) << ",\"rule\":" << jesc(Spaces[I].Rule)
      << ",\"size\":" << Spaces[I].Size << "}";
  E << "],\"samples\":[";
  bool First = true;
  for (auto &X : Spaces)
    for (uint64_t I : {X.Size / 3, X.Size * 7 / 8})
      if (X.Size) {
        E << (First ? "" : ",") << jesc(X.Name + ": " + X.At(I).substr(0, 400));
        First = false;
      }
  E << "],\"known_findings_seen\":" << KnownSeen.size() << "},\"assumptions\":[";
  for (unsigned I = 0; I < Assumptions.size(); ++I)
    E << (I ? "," : "") << jesc(Assumptions[I]);
  E << "],\"wall_s\":" << Wall << ",\"violations\":" << Unknown.size() << "}\n";
  Str ED = verifDir() + "/evidence";
  mkdir(ED.c_str(), 0755);
  std::ofstream(ED + "/" + Id + ".json") << E.str();
  printf("%s %s: %llu cases in %zu spaces, %zu distinct outcomes, %.1f s%s\n", Id.c_str(), Tier.c_str(),
         (unsigned long long)Evals, Spaces.size(), Outs.size(), Wall, Capped ? (" CAPPED: " + CapWhy).c_str() : "");
  for (unsigned I = 0; I < Counters.size(); ++I)
    printf("  %s=%llu", Counters[I].c_str(), (unsigned long long)Cnt[I]);
  if (!Counters.empty())
    printf("\n");
  for (auto &[K, N] : KindCount)
    printf("  failing kind %s: %llu\n", K.substr(0, K.find('\1')).c_str(), (unsigned long long)N);
  Cleanup();
  if (!Unknown.empty())
    return 1;
  if (Unrepro) {
    printf("%s: %u failure(s) did not reproduce: %s\n", Id.c_str(), Unrepro, UnreproText.c_str());
    return Timing ? 0 : 5;
  }
  return 0;
}

} // namespace mc
