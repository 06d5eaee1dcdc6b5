// A server under the check's control: the real Controller, LSPServer, ports and
// worker clients of /repo, with posted work run by the check.
#pragma once
#include "lspserver/Connection.h"
#include "lspserver/Logger.h"
#include "nixd/Controller/Controller.h"
#include "nixd/Eval/Launch.h"
#include <boost/asio/thread_pool.hpp>

#include <functional>
#include <llvm/Support/JSON.h>
#include <poll.h>
#include <string>
#include <vector>

namespace cs {
using Str = std::string;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

struct Quiet : lspserver::Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
inline void quiet() {
  static Quiet Q;
  static lspserver::LoggingSession S(Q);
}

inline Str show(const Value &V) {
  Str R;
  llvm::raw_string_ostream OS(R);
  OS << V;
  return R;
}

/// Splits a stream of framed messages. Returns false where it is not one.
inline bool frames(const Str &S, size_t &Pos, std::vector<Value> &Out, Str &Why) {
  while (Pos < S.size()) {
    static const Str H = "Content-Length: ";
    if (S.compare(Pos, H.size(), H)) return Why = "no Content-Length header at " + std::to_string(Pos), false;
    size_t P = Pos + H.size(), N = 0, D = 0;
    while (P < S.size() && isdigit((unsigned char)S[P])) N = N * 10 + (S[P++] - '0'), ++D;
    if (!D || S.compare(P, 4, "\r\n\r\n")) return Why = "bad header", false;
    P += 4;
    if (P + N > S.size()) return Why = "short body", false;
    auto V = llvm::json::parse(llvm::StringRef(S).substr(P, N));
    if (!V) return Why = "body is not JSON: " + llvm::toString(V.takeError()), false;
    Out.push_back(std::move(*V));
    Pos = P + N;
  }
  return true;
}

/// What a worker process does: called with every message it receives, returns
/// the messages it sends back. Runs in the forked child.
using Worker = std::function<std::vector<Value>(const Value &)>;
inline Worker TheWorker = [](const Value &M) -> std::vector<Value> {
  auto *O = M.getAsObject();
  if (!O || !O->get("id")) return {};
  return {Object{{"jsonrpc", "2.0"}, {"id", *O->get("id")}, {"result", nullptr}}};
};
inline Str WorkerName; ///< in the child: nixpkgs, or the name of the options
inline int workerMain() {
  Str In;
  while (true) {
    char B[65536];
    ssize_t N = read(0, B, sizeof B);
    if (N <= 0) _exit(0);
    In.append(B, N);
    while (true) {
      auto H = In.find("\r\n\r\n");
      if (H == Str::npos) break;
      size_t L = strtoull(In.c_str() + strlen("Content-Length: "), nullptr, 10);
      if (In.size() < H + 4 + L) break;
      auto V = llvm::json::parse(llvm::StringRef(In).substr(H + 4, L));
      In.erase(0, H + 4 + L);
      if (!V) {
        llvm::consumeError(V.takeError());
        continue;
      }
      if (auto *O = V->getAsObject())
        if (auto M = O->getString("method"); M && *M == "exit") _exit(0);
      for (auto &R : TheWorker(*V)) {
        Str T = show(R);
        T = "Content-Length: " + std::to_string(T.size()) + "\r\n\r\n" + T;
        for (size_t P = 0; P < T.size();) {
          ssize_t W = write(1, T.data() + P, T.size() - P);
          if (W <= 0) _exit(0);
          P += W;
        }
      }
    }
  }
}

inline Object range(int64_t L0, int64_t C0, int64_t L1, int64_t C1) {
  return Object{{"start", Object{{"line", L0}, {"character", C0}}}, {"end", Object{{"line", L1}, {"character", C1}}}};
}
inline Object pos(int64_t L, int64_t C) { return Object{{"line", L}, {"character", C}}; }

class Session {
public:
  Str Bytes; ///< everything written to the client
  size_t Parsed = 0;
  llvm::raw_string_ostream OS{Bytes};
  std::vector<Value> Out; ///< messages of Bytes, in order
  Str Broken;             ///< why Bytes is not a message stream
  lspserver::InboundPort In{-1};
  std::unique_ptr<nixd::Controller> C;
  int64_t NextId = 1;
  bool Alive = true; ///< the read loop would go on
  Str Thrown;        ///< an exception escaped: the server would have been terminated
  bool AutoDrain = true;

  Session() {
    quiet();
    C = std::make_unique<nixd::Controller>(std::make_unique<lspserver::InboundPort>(-1),
                                           std::make_unique<lspserver::OutboundPort>(OS));
  }
  ~Session() { drain(); }

  void drain() {
    while (!mcpool::Queue.empty()) {
      auto T = std::move(mcpool::Queue.front());
      mcpool::Queue.pop_front();
      guard([&] { T(); });
    }
  }
  template <class F> void guard(F &&Fn) {
    try {
      Fn();
    } catch (const std::exception &E) {
      Thrown = E.what();
      if (Thrown.empty()) Thrown = "exception";
    } catch (...) {
      Thrown = "exception";
    }
  }
  void collect() {
    OS.flush();
    if (Broken.empty()) frames(Bytes, Parsed, Out, Broken);
  }
  void send(Value M) {
    guard([&] {
      if (!In.dispatch(std::move(M), *C)) Alive = false;
    });
    if (AutoDrain) drain();
    collect();
  }
  void notify(llvm::StringRef Method, Value Params) {
    send(Object{{"jsonrpc", "2.0"}, {"method", Method}, {"params", std::move(Params)}});
  }
  /// Sends a request and returns the message that answers it (null if none).
  Value request(llvm::StringRef Method, Value Params) {
    int64_t Id = NextId++;
    size_t From = Out.size();
    send(Object{{"jsonrpc", "2.0"}, {"id", Id}, {"method", Method}, {"params", std::move(Params)}});
    for (size_t I = From; I < Out.size(); ++I)
      if (auto *O = Out[I].getAsObject())
        if (auto J = O->getInteger("id"); J && *J == Id && !O->get("method")) return Out[I];
    return nullptr;
  }
  /// The result of a request, or null.
  Value result(llvm::StringRef Method, Value Params) {
    Value V = request(Method, std::move(Params));
    if (auto *O = V.getAsObject())
      if (auto *R = O->get("result")) return *R;
    return nullptr;
  }
  Value initialize(Object Caps = {}) {
    return request("initialize", Object{{"processId", nullptr}, {"rootUri", nullptr}, {"capabilities", std::move(Caps)}});
  }
  void open(llvm::StringRef Uri, llvm::StringRef Text, int64_t Version = 1) {
    notify("textDocument/didOpen", Object{{"textDocument", Object{{"uri", Uri}, {"languageId", "nix"}, {"version", Version}, {"text", Text}}}});
  }
  void close(llvm::StringRef Uri) { notify("textDocument/didClose", Object{{"textDocument", Object{{"uri", Uri}}}}); }
  Object at(llvm::StringRef Uri, int64_t L, int64_t Ch) { return Object{{"textDocument", Object{{"uri", Uri}}}, {"position", pos(L, Ch)}}; }
  void reset() {
    Out.clear();
    Bytes.clear();
    Parsed = 0;
    Broken.clear();
  }
};
} // namespace cs
