// P15: the real read loop on a scripted descriptor. poll, read and kill of the
// code under test are replaced; what they return is the case.
#include "ctl/session.h"
#include "mc/mc.h"
#include "ref/json.h"
#include <cerrno>
#include <dlfcn.h>
#include <poll.h>
#include <sys/syscall.h>

using mc::Str;
namespace {
constexpr int Fd = 7777;
struct Item {
  Str Data;          ///< bytes that one read can return at most
  bool Eintr = false; ///< the call that would come to it is interrupted first
  bool Late = false;  ///< nothing to read at first: one poll times out
};
struct Script {
  std::vector<Item> Items;
  bool Hup = false;   ///< a pipe: POLLHUP is set as soon as the writer is gone
  bool HupEarly = false; ///< the writer is gone while all the data is still pending
  size_t At = 0, Off = 0;
  bool Interrupted = false, Waited = false;
  uint64_t Calls = 0, PastEnd = 0;
  bool Spin = false;
};
Script *Cur = nullptr;
uint64_t Budget = 0;
struct Stuck {};
void tick() {
  if (++Cur->Calls > Budget) throw Stuck();
}
bool atEnd() { return Cur->At >= Cur->Items.size(); }
int fakePoll(pollfd *F) {
  tick();
  F->revents = 0;
  if (atEnd()) {
    if (++Cur->PastEnd > 50) throw Stuck();
    F->revents = Cur->Hup ? POLLHUP : POLLIN;
    return 1;
  }
  Item &I = Cur->Items[Cur->At];
  if (!Cur->Off) {
    if (I.Eintr && !Cur->Interrupted) {
      Cur->Interrupted = true;
      F->revents = POLLIN | POLLHUP | POLLERR; // unspecified after an error
      errno = EINTR;
      return -1;
    }
    if (I.Late && !Cur->Waited) return Cur->Waited = true, 0;
  }
  F->revents = POLLIN;
  if (Cur->Hup && (Cur->HupEarly || Cur->At + 1 == Cur->Items.size())) F->revents |= POLLHUP;
  return 1;
}
ssize_t fakeRead(void *B, size_t N) {
  tick();
  if (!N) return 0;
  if (atEnd()) {
    if (++Cur->PastEnd > 50) throw Stuck();
    return 0;
  }
  Item &I = Cur->Items[Cur->At];
  if (!Cur->Off && I.Eintr && !Cur->Interrupted) {
    Cur->Interrupted = true;
    errno = EINTR;
    return -1;
  }
  size_t K = std::min(N, I.Data.size() - Cur->Off);
  memcpy(B, I.Data.data() + Cur->Off, K);
  Cur->Off += K;
  if (Cur->Off == I.Data.size()) ++Cur->At, Cur->Off = 0, Cur->Interrupted = Cur->Waited = false;
  return K;
}
} // namespace
extern "C" {
int poll(pollfd *F, nfds_t N, int T) {
  if (Cur && N == 1 && F->fd == Fd) return fakePoll(F);
  return syscall(SYS_poll, F, N, T);
}
int __poll_chk(pollfd *F, nfds_t N, int T, size_t) { return poll(F, N, T); }
ssize_t read(int D, void *B, size_t N) {
  if (D == Fd) return fakeRead(B, N);
  return syscall(SYS_read, D, B, N);
}
int kill(pid_t P, int S) {
  if (Cur && S == 0) return 0;
  return syscall(SYS_kill, P, S);
}
}

namespace {
using mc::Ctx;
enum { CStreams, CDeliveries, CMessages, CMalformed, CReads };

Str shown(const llvm::json::Value &V) {
  Str S = cs::show(V);
  return rj::show(rj::Reader(S).all());
}
struct Recorder : lspserver::MessageHandler {
  std::vector<Str> Ev;
  bool onNotify(llvm::StringRef M, llvm::json::Value P) override {
    Ev.push_back("notify " + M.str() + " " + shown(P));
    return M != "exit";
  }
  bool onCall(llvm::StringRef M, llvm::json::Value P, llvm::json::Value I) override {
    Ev.push_back("call " + shown(I) + " " + M.str() + " " + shown(P));
    return true;
  }
  bool onReply(llvm::json::Value I, llvm::Expected<llvm::json::Value> R) override {
    if (R) Ev.push_back("reply " + shown(I) + " " + shown(*R));
    else Ev.push_back("error " + shown(I) + " " + llvm::toString(R.takeError()));
    return true;
  }
};

// The reference: what messages a byte stream holds.
struct Expect {
  std::vector<Str> Ev;
  bool Exit = false, Framing = false; ///< Framing: a header is malformed, nothing is promised beyond Ev
  size_t Used = 0;                    ///< bytes up to the end of the message that ended the loop
};
bool isPrefixOf(std::string_view P, std::string_view S) { return S.substr(0, P.size()) == P; }
Str canon(const rj::V &V) { return rj::show(V); } // as LLVM prints: keys sorted, no blanks
Expect reference(const Str &S) {
  Expect E;
  size_t P = 0;
  while (true) {
    size_t Len = 0;
    while (true) {
      auto N = S.find('\n', P);
      if (N == Str::npos) return E.Used = S.size(), E;
      std::string_view L(S.data() + P, N - P);
      P = N + 1;
      while (!L.empty() && isspace((unsigned char)L.back())) L.remove_suffix(1);
      if (L.empty()) break;
      if (isPrefixOf("Content-Length: ", L)) {
        L.remove_prefix(16);
        while (!L.empty() && L[0] == ' ') L.remove_prefix(1);
        unsigned __int128 V = 0;
        for (char C : L) {
          if (C < '0' || C > '9') return E.Framing = true, E;
          V = V * 10 + (C - '0');
          if (V >> 64) return E.Framing = true, E;
        }
        if (L.empty()) return E.Framing = true, E;
        Len = (size_t)V;
      }
    }
    if (S.size() - P < Len) return E.Used = S.size(), E;
    std::string_view B(S.data() + P, Len);
    P += Len;
    try {
      rj::V V = rj::Reader(B).all();
      auto *R = V.get("jsonrpc");
      if (V.k != rj::Obj || !R || R->k != rj::Str || R->s != "2.0") continue;
      auto *M = V.get("method"), *I = V.get("id"), *Pa = V.get("params"), *Er = V.get("error"), *Re = V.get("result");
      if (M && M->k == rj::Str) {
        if (I) E.Ev.push_back("call " + canon(*I) + " " + M->s + " " + (Pa ? canon(*Pa) : "null"));
        else {
          E.Ev.push_back("notify " + M->s + " " + (Pa ? canon(*Pa) : "null"));
          if (M->s == "exit") return E.Exit = true, E.Used = P, E;
        }
      } else if (I) {
        if (Er && Er->k == rj::Obj) {
          auto *Ms = Er->get("message");
          auto *C = Er->get("code");
          Str T = Ms && Ms->k == rj::Str ? Ms->s : "Unspecified error";
          lspserver::LSPError X(T, lspserver::ErrorCode(C ? C->num() : 0));
          E.Ev.push_back("error " + canon(*I) + " " + (C ? llvm::toString(llvm::make_error<lspserver::LSPError>(X)) : T));
        } else
          E.Ev.push_back("reply " + canon(*I) + " " + (Re ? canon(*Re) : "null"));
      }
    } catch (const rj::Err &) {
    }
  }
}

Str join(const std::vector<Str> &V) {
  Str R;
  for (auto &S : V) R += (R.empty() ? "" : " | ") + S;
  return R.empty() ? "nothing" : R;
}

void deliver(Ctx &X, const Str &Text, const Expect &E, Script S, const std::function<Str()> &How) {
  X.add(CDeliveries);
  Cur = &S;
  Budget = 40 * Text.size() + 4000;
  Recorder R;
  Str Bad;
  {
    lspserver::InboundPort P(Fd);
    try {
      P.loop(R);
    } catch (const Stuck &) {
      Bad = "the loop does not end";
    } catch (const std::exception &Ex) {
      Bad = Str("an exception leaves the loop: ") + Ex.what();
    }
  }
  Cur = nullptr;
  X.add(CReads, S.Calls);
  if (!Bad.empty()) return X.fail("loop", Bad + "; " + How());
  if (E.Framing) {
    X.add(CMalformed);
    for (size_t I = 0; I < E.Ev.size(); ++I)
      if (I >= R.Ev.size() || R.Ev[I] != E.Ev[I]) return X.fail("messages", "handled " + join(R.Ev) + ", written " + join(E.Ev) + "; " + How());
    return;
  }
  if (R.Ev != E.Ev) X.fail("messages", "handled " + join(R.Ev) + ", written " + join(E.Ev) + "; " + How());
  (void)E;
}

Script whole(const Str &T) {
  Script S;
  if (!T.empty()) S.Items.push_back({T});
  return S;
}
Script cut(const Str &T, std::vector<size_t> Cuts) {
  Script S;
  size_t L = 0;
  Cuts.push_back(T.size());
  for (size_t C : Cuts)
    if (C > L) S.Items.push_back({T.substr(L, C - L)}), L = C;
  return S;
}
Script bytes(const Str &T) {
  Script S;
  for (char C : T) S.Items.push_back({Str(1, C)});
  return S;
}

bool Quick = true;
/// Level: how many ways of delivery are tried.
void evalStream(Ctx &X, const Str &T, int Level) {
  X.add(CStreams);
  Expect E = reference(T);
  X.add(CMessages, E.Ev.size());
  auto N = [](const char *W) { return [W]() -> Str { return W; }; };
  for (int Hup = 0; Hup < 3; ++Hup) {
    auto Go = [&](Script S, const std::function<Str()> &How) {
      S.Hup = Hup, S.HupEarly = Hup == 2;
      deliver(X, T, E, std::move(S), [&] { return How() + (Hup == 2 ? ", writer gone from the start" : Hup ? ", pipe" : ", file"); });
    };
    Go(whole(T), N("in one piece"));
    Go(bytes(T), N("byte by byte"));
    auto B = bytes(T);
    for (auto &I : B.Items) I.Eintr = true;
    Go(B, N("byte by byte, every call interrupted"));
    for (auto &I : B.Items) I.Late = true;
    Go(B, N("byte by byte, late and interrupted"));
    if (Level >= 1)
      for (size_t C = 1; C < T.size(); ++C) {
        Go(cut(T, {C}), [&] { return "cut at " + std::to_string(C); });
        auto S = cut(T, {C});
        if (S.Items.size() > 1) {
          S.Items[1].Eintr = true;
          Go(S, [&] { return "cut and interrupted at " + std::to_string(C); });
          S.Items[1].Eintr = false;
          S.Items[1].Late = true;
          Go(S, [&] { return "cut and late at " + std::to_string(C); });
        }
      }
    if (Level >= 2 && (Hup == 0 || !Quick))
      for (size_t C = 1; C < T.size(); ++C)
        for (size_t D = C + 1; D < T.size(); ++D)
          Go(cut(T, {C, D}), [&] { return "cut at " + std::to_string(C) + " and " + std::to_string(D); });
    if (Level >= 3 && Hup == 0)
      for (size_t C = 1; C < T.size(); ++C)
        for (size_t D = C + 1; D < T.size(); ++D)
          for (size_t F = D + 1; F < T.size(); ++F)
            Go(cut(T, {C, D, F}), [&] { return "cut at " + std::to_string(C) + ", " + std::to_string(D) + " and " + std::to_string(F); });
  }
}
void evalTruncated(Ctx &X, const Str &T) {
  for (size_t L = 0; L <= T.size(); ++L) evalStream(X, T.substr(0, L), 0);
}

Str frame(const Str &Body, int Form) {
  Str N = std::to_string(Body.size());
  switch (Form) {
  case 0: return "Content-Length: " + N + "\r\n\r\n" + Body;
  case 1: return "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: " + N + "\r\n\r\n" + Body;
  case 2: return "Content-Length: " + N + "\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n" + Body;
  case 3: return "X-A: 1\r\nContent-Length: " + N + "  \r\nX-Content-Length: 3\r\n\r\n" + Body;
  case 4: return "Content-Length: 0" + N + "\r\n\r\n" + Body;
  }
  return "";
}
} // namespace

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  mc::Check C(argv[1], argc - 1, argv + 1);
  Quick = C.quick();
  cs::quiet();
  C.Counters = {"streams", "deliveries", "well-formed messages", "deliveries with a malformed header", "calls of read and poll answered"};
  const Str J = "{\"jsonrpc\":\"2.0\",";
  std::vector<Str> Good = {
      J + "\"method\":\"a\",\"params\":[1]}",
      J + "\"id\":1,\"method\":\"b\"}",
      J + "\"id\":\"x\",\"method\":\"b\",\"params\":{\"k\":\"\xc3\xa9\xf0\x9f\x98\x80\"}}",
      J + "\"id\":1,\"result\":{\"r\":\"\\r\\n\\r\\nContent-Length: 2\\r\\n\\r\\n{}\"}}",
      J + "\"id\":2,\"error\":{\"code\":-1,\"message\":\"m\"}}",
      J + "\"method\":\"exit\"}",
      " \r\n" + J + "\r\n\r\n\"method\":\n\"c\"}\n\n",
      J + "\"id\":3}",
      J + "\"id\":4,\"method\":\"exit\"}",
  };
  std::vector<Str> Bad = {"", "{", "[]", "{}", "5", "{\"jsonrpc\":\"1.0\",\"method\":\"a\"}", J + "\"params\":1}", "\xff", "{\"jsonrpc\":\"2.0\",\"method\":\"a\"} x",
                          "\r\n\r\nContent-Length: 2\r\n\r\n{}", "null", "\"s\"", J + "\"method\":\"\xff\"}", "\n"};
  std::vector<Str> All = Good;
  All.insert(All.end(), Bad.begin(), Bad.end());
  std::vector<Str> One, OneAll, Pairs, Triples, Frag;
  for (auto &B : All)
    for (int F = 0; F < 5; ++F) One.push_back(frame(B, F));
  for (auto &A : All)
    for (auto &B : All) Pairs.push_back(frame(A, 0) + frame(B, 0));
  for (auto &A : All)
    for (auto &B : All)
      for (auto &D : All) Triples.push_back(frame(A, 0) + frame(B, 2) + frame(D, 0));
  // small bodies, for all choices of three cuts
  const Str Tiny = J + "\"method\":\"a\"}";
  OneAll = {frame("{}", 0) + frame(Tiny, 0), frame(Tiny, 0) + frame("", 0), frame("{", 0) + frame(Tiny, 0)};
  Frag = {"Content-Length: ", "Content-Length:", "content-length: 5", "X: y", "2", "0", "33", "-1", "x", "18446744073709551615", "18446744073709551616", "99999999999", "\r\n", "\n", "\r", " ", "{}", Tiny};
  C.Spaces.push_back(mc::listSpace("two-cuts", "every message kind in every header form, whole, byte by byte, interrupted and late at every byte, and cut at every pair of places", One));
  C.Spaces.push_back(mc::listSpace("one-cut", "every pair of message kinds, cut, interrupted and late at every place", Pairs));
  C.Spaces.push_back(mc::listSpace("three-cuts", "short streams cut at every choice of three places", C.quick() ? std::vector<Str>{OneAll[2]} : OneAll));
  C.Spaces.push_back(mc::listSpace("triples", "every triple of message kinds, whole, byte by byte, and interrupted at every byte", Triples));
  std::vector<Str> Cutoff;
  for (auto &S : One) Cutoff.push_back(S);
  for (auto &A : Good) for (auto &B : All) Cutoff.push_back(frame(A, 0) + frame(B, 1));
  C.Spaces.push_back(mc::listSpace("truncated", "every prefix of one- and two-message streams, end of input as a file and as a pipe", Cutoff));
  C.Spaces.push_back(mc::seqSpace("headers", "all sequences of header fragments, well-formed or not, followed by a well-formed message", Frag, 0, C.quick() ? 4 : 5, "", "", frame(Tiny, 0)));
  C.Spaces.push_back(mc::seqSpace("lengths", "a Content-Length header with every short value", {"0", "1", "3", "9", "-", "+", " ", "x", "a", "\t"}, 0, C.quick() ? 4 : 5, "", "Content-Length: ", "\r\n\r\n" + Tiny + frame(Tiny, 0)));
  C.Eval = [](Ctx &X, const Str &Space, const Str &T) {
    if (Space == "two-cuts") evalStream(X, T, 2);
    else if (Space == "one-cut") evalStream(X, T, 1);
    else if (Space == "three-cuts") evalStream(X, T, 3);
    else if (Space == "truncated") evalTruncated(X, T);
    else evalStream(X, T, 0);
  };
  C.Rule = "each stream is delivered to the real InboundPort::loop through replaced poll/read calls in every way its space states; the handler calls must be those of a reference reader of the same bytes";
  C.Assumptions = {"a malformed message is one whose header is well-formed and whose body is not a JSON-RPC message; after a malformed header only the messages before it are compared, and that the loop ends",
                   "poll and read behave as POSIX says: short reads anywhere, EINTR, time-outs, POLLHUP with or without pending data"};
  return C.run();
}
