// P16 (outgoing stream) and P17 (calls and replies): the real ports and
// LSPServer, under every schedule of the controlled scheduler (P16, P17) and
// for every message history (P17).
#include "ctl/session.h"
#include "mc/mc.h"
#include "ref/json.h"
#include "sched/sched.h"
#include "lspserver/LSPServer.h"

using mc::Ctx;
using mc::Str;
using llvm::json::Object;
using llvm::json::Value;
namespace {
enum { CScen, CSched, CSteps, CMsgs, CHist };
bool Quick = true;

struct YieldLogger : lspserver::Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override { sched::point("log"); }
};

/// A stream that lets other threads run in the middle of every write.
struct YieldStream : llvm::raw_ostream {
  Str Got;
  explicit YieldStream(bool Buffered) : raw_ostream(!Buffered) {
    if (Buffered) SetBufferSize(Buffered ? 4096 : 0);
  }
  ~YieldStream() override { flush(); }
  void write_impl(const char *P, size_t N) override {
    size_t H = N / 2;
    sched::point("write");
    Got.append(P, H);
    sched::point("write");
    Got.append(P + H, N - H);
  }
  uint64_t current_pos() const override { return Got.size(); }
};

/// Strict reading of a stream of frames; bodies by the independent reader.
bool readFrames(const Str &S, std::vector<rj::V> &Out, Str &Why) {
  size_t P = 0;
  while (P < S.size()) {
    size_t E = S.find("\r\n\r\n", P);
    if (E == Str::npos) return Why = "a header does not end", false;
    Str H = S.substr(P, E - P);
    size_t L = 0;
    if (H.compare(0, 16, "Content-Length: ") || H.size() == 16) return Why = "header " + mc::esc(H), false;
    for (char C : H.substr(16)) {
      if (!isdigit((unsigned char)C)) return Why = "header " + mc::esc(H), false;
      L = L * 10 + (C - '0');
    }
    P = E + 4;
    if (P + L > S.size()) return Why = "a body is shorter than declared", false;
    try {
      Out.push_back(rj::Reader(std::string_view(S).substr(P, L)).all());
    } catch (const rj::Err &X) {
      return Why = "body " + mc::esc(S.substr(P, L)) + ": " + X.what(), false;
    }
    P += L;
  }
  return true;
}

// ---------------------------------------------------------------- P16
// Case: threads separated by '/', each a list of messages; then "|u" or "|b"
// for an unbuffered or buffered stream, "p" for pretty printing.
void evalOut(Ctx &X, const Str &T) {
  X.add(CScen);
  auto Bar = T.find('|');
  bool Buffered = T.find('b', Bar) != Str::npos, Pretty = T.find('p', Bar) != Str::npos;
  std::vector<Str> Th(1);
  for (char C : T.substr(0, Bar))
    if (C == '/') Th.emplace_back();
    else Th.back() += C;
  sched::Explorer E;
  E.Preemptions = Th.size() > 2 ? (Quick ? 2 : 3) : 3;
  // what each thread sends, as text
  auto Tag = [](int I, int J) { return "t" + std::to_string(I) + "m" + std::to_string(J); };
  auto Expect = [&](int I, int J, char K) -> Str {
    Str G = Tag(I, J);
    switch (K) {
    case 'n': return R"({"jsonrpc":"2.0","method":")" + G + R"(","params":[1]})";
    case 'N': return R"({"jsonrpc":"2.0","method":")" + G + "\",\"params\":{\"k\":\"\xc3\xa9\xf0\x9f\x98\x80 \\u000d\\u000a\\u000d\\u000a Content-Length: 3\"}}";
    case 'c': return R"({"id":")" + G + R"(","jsonrpc":"2.0","method":"m","params":null})";
    case 'r': return R"({"id":")" + G + R"(","jsonrpc":"2.0","result":true})";
    case 'e': return R"({"error":{"code":-32601,"message":"no"},"id":")" + G + R"(","jsonrpc":"2.0"})";
    }
    return "";
  };
  std::unique_ptr<YieldStream> S;
  std::unique_ptr<lspserver::OutboundPort> P;
  uint64_t Bad = 0;
  E.explore(
      [&] {
        S = std::make_unique<YieldStream>(Buffered);
        P = std::make_unique<lspserver::OutboundPort>(*S, Pretty);
        for (int I = 0; I < (int)Th.size(); ++I)
          sched::spawn([&, I] {
            for (int J = 0; J < (int)Th[I].size(); ++J) {
              Str G = Tag(I, J);
              switch (Th[I][J]) {
              case 'n': P->notify(G, llvm::json::Array{1}); break;
              case 'N': P->notify(G, Object{{"k", "\xc3\xa9\xf0\x9f\x98\x80 \r\n\r\n Content-Length: 3"}}); break;
              case 'c': P->call("m", nullptr, G); break;
              case 'r': P->reply(G, Value(true)); break;
              case 'e': P->reply(G, llvm::make_error<lspserver::LSPError>("no", lspserver::ErrorCode::MethodNotFound)); break;
              }
            }
          }, "sender");
        sched::quiesce();
      },
      [&](const sched::Outcome &O) {
        X.add(CSched), X.add(CSteps, O.Steps);
        auto Fail = [&](const char *K, const Str &W) { X.fail(K, W + "; schedule " + O.Schedule), ++Bad; };
        if (O.Deadlock || O.Limit) Fail("deadlock", O.Note);
        else if (!O.Thrown.empty()) Fail("exception", O.Thrown);
        std::vector<rj::V> M;
        Str Why;
        if (!readFrames(S->Got, M, Why)) Fail("framing", Why);
        else {
          X.add(CMsgs, M.size());
          std::vector<Str> Got;
          for (auto &V : M) Got.push_back(rj::show(V));
          std::multiset<Str> Want;
          for (int I = 0; I < (int)Th.size(); ++I) {
            size_t Last = 0;
            for (int J = 0; J < (int)Th[I].size(); ++J) {
              Str W = Expect(I, J, Th[I][J]);
              Want.insert(W);
              auto At = std::find(Got.begin(), Got.end(), W);
              if (At == Got.end()) continue;
              size_t K = At - Got.begin() + 1;
              if (K < Last) Fail("order", "thread " + std::to_string(I) + " message " + std::to_string(J) + " comes too early");
              Last = K;
            }
          }
          if (std::multiset<Str>(Got.begin(), Got.end()) != Want) {
            Str L;
            for (auto &G : Got) L += G + " ";
            Fail("messages", "sent " + std::to_string(Want.size()) + " messages, received " + L);
          }
        }
        P.reset();
        S.reset();
        return Bad == 0;
      });
}

// ---------------------------------------------------------------- P17
struct Int {
  int64_t V = 0;
};
bool fromJSON(const Value &J, Int &I, llvm::json::Path P) {
  if (auto X = J.getAsInteger()) return I.V = *X, true;
  P.report("expected an integer");
  return false;
}
Value toJSON(const Int &I) { return I.V; }

struct Peer : lspserver::LSPServer {
  std::vector<lspserver::Callback<Int>> Deferred;
  std::vector<Str> Log; ///< what reached the handlers and callbacks
  llvm::unique_function<void(const Int &, lspserver::Callback<Int>)> Ask, AskOther;
  std::function<void()> OnOldest;
  llvm::raw_string_ostream Null;
  Str NullS;
  std::unique_ptr<lspserver::OutboundPort> Second;

  explicit Peer(llvm::raw_ostream &OS)
      : LSPServer(std::make_unique<lspserver::InboundPort>(-1), std::make_unique<lspserver::OutboundPort>(OS)), Null(NullS) {
    Second = std::make_unique<lspserver::OutboundPort>(Null);
    Registry.addMethod("twice", this, &Peer::twice);
    Registry.addMethod("later", this, &Peer::later);
    Registry.addMethod("fails", this, &Peer::fails);
    Registry.addNotification("note", this, &Peer::note);
    Ask = mkOutMethod<Int, Int>("ask");
    AskOther = mkOutMethod<Int, Int>("ask", Second.get());
  }
  void twice(const Int &I, lspserver::Callback<Int> R) {
    Log.push_back("twice " + std::to_string(I.V));
    R(Int{I.V * 2});
  }
  void fails(const Int &, lspserver::Callback<Int> R) { R(llvm::make_error<lspserver::LSPError>("refused", lspserver::ErrorCode::InternalError)); }
  void later(const Int &, lspserver::Callback<Int> R) { Deferred.push_back(std::move(R)); }
  void note(const Int &I) { Log.push_back("note " + std::to_string(I.V)); }
  void ask(int N) {
    Ask(Int{N}, [this, N](llvm::Expected<Int> R) {
      if (R) Log.push_back("answer " + std::to_string(N) + " = " + std::to_string(R->V));
      else llvm::consumeError(R.takeError()), Log.push_back("answer " + std::to_string(N) + " = error");
    });
  }
};

Str joined(const std::vector<Str> &V) {
  Str R;
  for (auto &S : V) R += (R.empty() ? "" : " | ") + S;
  return R.empty() ? "nothing" : R;
}

// History operations. Peer messages first, then what the server itself does.
const std::vector<Str> Ops = {
    "C",                                                  // the server calls the client
    "R1", "R2", "E1", "B1",                               // reply to the server's 1st/2nd call: result, error, undecodable
    "R9", "Rs", "Rn", "Rf", "Rbig", "Rneg", "Rhuge", "Ro", // replies with ids that no call has
    "Qok", "Qbad", "Qnull", "Qunknown", "Qfails", "Qlater", "Qstr", "Qbigid", "Qarr",
    "Nok", "Nbad", "Nunknown",
    "A", "F",                                             // the server answers its oldest deferred request: result, error
};

// Case: operations separated by spaces.
void evalHist(Ctx &X, const Str &T) {
  X.add(CHist);
  Str Bytes;
  llvm::raw_string_ostream OS(Bytes);
  lspserver::InboundPort In(-1);
  auto P = std::make_unique<Peer>(OS);
  std::vector<int64_t> CallIds; // ids of the server's calls as seen on the wire
  std::set<int> Pending;        // numbers of calls without reply
  std::vector<Str> WantLog;
  std::vector<Str> WantOut; // replies, "?" for the message of an error
  std::vector<Str> Later;
  size_t Parsed = 0;
  std::vector<rj::V> Msgs;
  int Q = 0;
  auto Fail = [&](const char *K, const Str &D) { X.fail(K, D); };
  std::istringstream IS(T);
  Str Op;
  size_t NOut = 0;
  while (IS >> Op) {
    auto Send = [&](Object O) {
      O["jsonrpc"] = "2.0";
      Str Shown = cs::show(Value(Object(O)));
      try {
        if (!In.dispatch(Value(std::move(O)), *P)) Fail("session", "ended by " + Shown);
      } catch (const std::exception &E) {
        Fail("exception", Str(E.what()) + " at " + Shown);
      }
    };
    auto Reply = [&](Value Id, int Call, char K) { // Call: number of the call with that id, or 0
      Object O;
      O["id"] = std::move(Id);
      if (K == 'R') O["result"] = 7;
      if (K == 'B') O["result"] = "seven";
      if (K == 'E') O["error"] = Object{{"code", 1}, {"message", "no"}};
      if (Call && Pending.erase(Call)) WantLog.push_back("answer " + std::to_string(Call) + (K == 'R' ? " = 7" : " = error"));
      Send(std::move(O));
    };
    auto Known = [&](int N, char K) {
      // without such a call, reply to an id that the peer has not seen
      if (N <= (int)CallIds.size()) Reply(CallIds[N - 1], N, K);
      else Reply(1000 + N, 0, K);
    };
    auto Request = [&](const char *M, Value Params, Value Id, const Str &Want) {
      Str I = rj::show(rj::Reader(cs::show(Id)).all());
      if (!Want.empty()) WantOut.push_back("{\"id\":" + I + "," + Want);
      else Later.push_back(I);
      Send(Object{{"method", M}, {"params", std::move(Params)}, {"id", std::move(Id)}});
    };
    ++Q;
    if (Op == "C") {
      int N = CallIds.size() + 1;
      Pending.insert(N);
      P->ask(N);
    } else if (Op == "R1") Known(1, 'R');
    else if (Op == "R2") Known(2, 'R');
    else if (Op == "E1") Known(1, 'E');
    else if (Op == "B1") Known(1, 'B');
    else if (Op == "R9") Reply(900, 0, 'R');
    else if (Op == "Rs") Reply("1", 0, 'R');
    else if (Op == "Rn") Reply(nullptr, 0, 'R');
    else if (Op == "Rf") Reply(1.5, 0, 'R');
    else if (Op == "Rbig") Reply((CallIds.empty() ? 1 : CallIds[0]) + (int64_t(1) << 32), 0, 'R');
    else if (Op == "Rneg") Reply((CallIds.empty() ? 1 : CallIds[0]) - (int64_t(1) << 32), 0, 'R');
    else if (Op == "Rhuge") Reply(1e300, 0, 'E');
    else if (Op == "Ro") Reply(Object{{"id", 1}}, 0, 'R');
    else if (Op == "Qok") {
      WantLog.push_back("twice 21");
      Request("twice", 21, Q, "42");
    } else if (Op == "Qbad") Request("twice", "x", Q, "error");
    else if (Op == "Qnull") Request("twice", nullptr, Q, "error");
    else if (Op == "Qunknown") Request("nosuch", 1, Q, "error");
    else if (Op == "Qfails") Request("fails", 1, Q, "error");
    else if (Op == "Qlater") Request("later", 1, Q, "");
    else if (Op == "Qstr") Request("nosuch", 1, "a\"\xc3\xa9", "error");
    else if (Op == "Qbigid") Request("twice", 1, int64_t(9007199254740993), "2"), WantLog.push_back("twice 1");
    else if (Op == "Qarr") Request("twice", llvm::json::Array{1}, -5, "error");
    else if (Op == "Nok") {
      WantLog.push_back("note 3");
      Send(Object{{"method", "note"}, {"params", 3}});
    } else if (Op == "Nbad") Send(Object{{"method", "note"}, {"params", "x"}});
    else if (Op == "Nunknown") Send(Object{{"method", "$/nosuch"}});
    else if ((Op == "A" || Op == "F") && !P->Deferred.empty()) {
      auto R = std::move(P->Deferred.front());
      P->Deferred.erase(P->Deferred.begin());
      if (Later.empty()) return Fail("handlers", "more requests were deferred than sent");
      WantOut.push_back("{\"id\":" + Later[0] + "," + (Op == "A" ? "5" : "error"));
      Later.erase(Later.begin());
      if (Op == "A") R(Int{5});
      else R(llvm::make_error<lspserver::LSPError>("no", lspserver::ErrorCode::InternalError));
    }
    // what came out
    OS.flush();
    Msgs.clear();
    Str Why;
    if (!readFrames(Bytes, Msgs, Why)) return Fail("framing", Why);
    for (; Parsed < Msgs.size(); ++Parsed) {
      auto &M = Msgs[Parsed];
      auto *Id = M.get("id");
      if (M.get("method")) {
        if (M.get("method")->s != "ask" || !Id || !Id->isInt() || !M.get("params") || rj::show(*M.get("params")) != std::to_string(CallIds.size() + 1))
          return Fail("output", "unexpected message " + rj::show(M));
        if (std::count(CallIds.begin(), CallIds.end(), Id->num())) return Fail("output", "an id is used twice: " + rj::show(M));
        CallIds.push_back(Id->num());
        continue;
      }
      auto *R = M.get("result"), *E = M.get("error");
      if (!Id || !R == !E) return Fail("output", "unexpected message " + rj::show(M));
      Str G = "{\"id\":" + rj::show(*Id) + "," + (E ? "error" : rj::show(*R));
      if (E && (E->k != rj::Obj || !E->get("code") || !E->get("code")->isInt() || !E->get("message") || E->get("message")->k != rj::Str))
        return Fail("output", "malformed error " + rj::show(M));
      if (NOut >= WantOut.size() || WantOut[NOut] != G) return Fail("reply", "after " + Op + ": " + rj::show(M) + (NOut < WantOut.size() ? ", due " + WantOut[NOut] : ", none due"));
      ++NOut;
    }
    if (NOut < WantOut.size()) return Fail("reply", "after " + Op + ": not answered: " + WantOut[NOut]);
    if (P->Log != WantLog) return Fail("delivery", "after " + Op + ": " + joined(P->Log) + "; due " + joined(WantLog));
    if ((int)CallIds.size() < (Pending.empty() ? 0 : *Pending.rbegin())) return Fail("output", "a call was not sent");
  }
}

// Many calls without a reply. Case: number of calls, then the calls answered.
void evalMany(Ctx &X, const Str &T) {
  X.add(CHist);
  std::istringstream IS(T);
  int N, M;
  IS >> N;
  std::set<int> Ans;
  while (IS >> M) Ans.insert(M);
  Str Bytes;
  llvm::raw_string_ostream OS(Bytes);
  lspserver::InboundPort In(-1);
  auto P = std::make_unique<Peer>(OS);
  for (int I = 1; I <= N; ++I) P->ask(I);
  std::map<int, int> Count; // call -> how often its callback ran
  auto Look = [&] {
    Count.clear();
    for (auto &L : P->Log) ++Count[atoi(L.c_str() + 7)];
  };
  Look();
  for (auto &[I, K] : Count)
    if (K != 1) X.fail("delivery", "call " + std::to_string(I) + " was answered " + std::to_string(K) + " times without a reply");
  if (N <= 100 && !Count.empty()) X.fail("delivery", "a pending call was answered without a reply");
  auto Gone = Count;
  if (!Gone.empty() && Gone.rbegin()->first > N - 50) X.fail("delivery", "a recent call was forgotten");
  for (auto &L : P->Log)
    if (L.find("error") == Str::npos) X.fail("delivery", "a forgotten call got a result: " + L);
  OS.flush();
  std::vector<rj::V> Msgs;
  Str Why;
  if (!readFrames(Bytes, Msgs, Why) || (int)Msgs.size() != N) return X.fail("output", "calls were not sent " + Why);
  for (int A : Ans) In.dispatch(Object{{"jsonrpc", "2.0"}, {"id", Msgs[A - 1].get("id")->num()}, {"result", A}}, *P);
  Look();
  for (int I = 1; I <= N; ++I) {
    int Want = Gone.count(I) || Ans.count(I);
    if (Count[I] != Want) X.fail("delivery", "call " + std::to_string(I) + " was answered " + std::to_string(Count[I]) + " times");
  }
}

// Calls from threads while the peer replies. Case: threads of calls separated by
// '/', then '|' and how the peer replies to each call it sees, in order of
// sight. Calls: c plain, n one that calls again from its callback. Replies: r at
// once, d twice, e an error, l after everything else, x never, m a bad one first.
// "#" first: 100 calls are pending already.
void evalCalls(Ctx &X, const Str &T) {
  X.add(CScen);
  bool Full = T[0] == '#';
  auto Bar = T.find('|');
  std::vector<Str> Th(1);
  for (char C : T.substr(Full, Bar - Full))
    if (C == '/') Th.emplace_back();
    else Th.back() += C;
  Str How = T.substr(Bar + 1);
  sched::Explorer E;
  E.Preemptions = Quick && How.size() < 3 ? 2 : Quick ? 1 : How.size() < 3 ? 3 : 2;
  if (Full) E.Preemptions = 1;
  E.MaxSteps = 60000;
  uint64_t Bad = 0;
  struct St {
    std::map<int, std::vector<Str>> Ans; // call number -> what its callback got
    std::set<int> Begun;
    std::set<int> Never;
    std::map<int, char> Kind;
    bool Ended = false;
    YieldStream S{false};
    std::unique_ptr<Peer> P;
    lspserver::InboundPort In{-1};
    int Preset = 0;
  };
  std::shared_ptr<St> W;
  E.explore(
      [&] {
        W = std::make_shared<St>();
        auto S = W;
        S->P = std::make_unique<Peer>(S->S);
        static std::function<void(std::shared_ptr<St>, int, bool)> Call;
        Call = [](std::shared_ptr<St> S, int N, bool Nest) {
          S->Begun.insert(N);
          // mkOutMethod's functions are made per call: they are not shared between threads
          auto F = [S, N, Nest](llvm::Expected<Int> R) {
            if (R) S->Ans[N].push_back(std::to_string(R->V));
            else S->Ans[N].push_back(llvm::toString(R.takeError()).find("decode") != Str::npos ? "undecodable" : "error");
            if (Nest) Call(S, N + 50, false);
          };
          S->P->Ask(Int{N}, std::move(F));
        };
        if (Full)
          for (S->Preset = 0; S->Preset < 100; ++S->Preset)
            S->P->AskOther(Int{0}, [S, Nest = How.find('N') != Str::npos && S->Preset == 0](llvm::Expected<Int> R) {
              if (!R) llvm::consumeError(R.takeError());
              if (Nest) Call(S, 990, false);
            });
        for (int I = 0; I < (int)Th.size(); ++I)
          sched::spawn([S, I, L = Th[I]] {
            for (int J = 0; J < (int)L.size(); ++J) Call(S, 100 * (I + 1) + J, L[J] == 'n');
          }, "caller");
        sched::spawn([S, How] {
          size_t Seen = 0;
          std::vector<std::pair<int64_t, int>> Last;
          auto Reply = [&](int64_t Id, int N, char K) {
            Object O{{"jsonrpc", "2.0"}, {"id", Id}};
            if (K == 'e') O["error"] = Object{{"code", 1}, {"message", "no"}};
            else if (K == 'm') O["result"] = "bad";
            else O["result"] = N;
            if (!S->In.dispatch(std::move(O), *S->P)) S->Ended = true;
          };
          rj::V V;
          size_t From = 0, Size = 0;
          // is another whole message there?
          auto Look = [&] {
            if (S->S.Got.size() == Size) return false;
            Size = S->S.Got.size();
            auto H = S->S.Got.find("\r\n\r\n", From);
            if (H == Str::npos) return false;
            size_t L = atol(S->S.Got.c_str() + From + 16);
            if (H + 4 + L > Size) return false;
            V = rj::Reader(std::string_view(S->S.Got).substr(H + 4, L)).all();
            From = H + 4 + L;
            return true;
          };
          bool Have = false;
          auto Next = [&] {
            Have = false;
            sched::blockOrTimeout([&] { return Have || (Have = Look()); }, "peer");
            Size = 0;
            return Have;
          };
          while (true) {
            if (!Next()) break;
            char K = Seen < How.size() ? How[Seen] : 'r';
            ++Seen;
            int64_t Id = V.get("id")->num();
            int N = V.get("params")->num();
            S->Kind[N] = K;
            switch (K) {
            case 'd': Reply(Id, N, 'r'), Reply(Id, N, 'r'); break;
            case 'l': Last.push_back({Id, N}); break;
            case 'x': break;
            case 'm': Reply(Id, N, 'm'), Reply(Id, N, 'r'); break;
            default: Reply(Id, N, K);
            }
          }
          for (auto It = Last.rbegin(); It != Last.rend(); ++It) Reply(It->first, It->second, 'r');
          // calls made by the callbacks of those
          while (true) {
            if (!Next()) break;
            S->Kind[V.get("params")->num()] = 'r';
            Reply(V.get("id")->num(), V.get("params")->num(), 'r');
          }
        }, "peer");
        sched::quiesce();
      },
      [&](const sched::Outcome &O) {
        X.add(CSched), X.add(CSteps, O.Steps);
        auto Fail = [&](const char *K, const Str &D) { X.fail(K, D + "; schedule " + O.Schedule), ++Bad; };
        if (O.Deadlock || O.Limit) Fail("deadlock", O.Note);
        else if (!O.Thrown.empty()) Fail("exception", O.Thrown);
        else {
          if (W->Ended) Fail("session", "a reply ended the session");
          for (int N : W->Begun) {
            char K = W->Kind.count(N) ? W->Kind[N] : '-';
            Str Want = K == 'e' ? "error" : K == 'm' ? "undecodable" : K == 'x' ? "" : std::to_string(N);
            Str Got = joined(W->Ans[N]);
            if (K == '-') Fail("output", "call " + std::to_string(N) + " was not seen by the peer");
            else if (Want.empty() ? !W->Ans[N].empty() : Got != Want)
              Fail("delivery", "call " + std::to_string(N) + " got " + Got + ", the peer answered " + (Want.empty() ? "nothing" : Want));
          }
        }
        if (!Bad) W->P.reset();
        else W->P.release();
        return Bad == 0;
      });
}
} // namespace

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  Str Id = argv[1];
  mc::Check C(Id, argc - 1, argv + 1);
  Quick = C.quick();
  static YieldLogger YL;
  static lspserver::LoggingSession LS(YL);
  C.Counters = {"scenarios", "schedules", "scheduling steps", "messages received", "histories"};
  C.HangS = 120;
  if (Id == "P16") {
    std::vector<Str> One, Cases;
    Str K = "nNcre";
    std::vector<Str> Lists;
    for (char A : K) {
      Lists.push_back(Str(1, A));
      for (char B : K) Lists.push_back(Str{A, B});
    }
    for (size_t I = 0; I < Lists.size(); ++I)
      for (size_t J = I; J < Lists.size(); ++J)
        for (const char *M : {"|u", "|b"}) {
          Cases.push_back(Lists[I] + "/" + Lists[J] + M);
        }
    for (char A : K)
      for (char B : K) {
        Cases.push_back(Str{A, '/', B} + "|up");
        for (char D : K)
          if (A <= B && B <= D) Cases.push_back(Str{A, '/', B, '/', D} + "|u"), Cases.push_back(Str{A, '/', B, '/', D} + "|b");
      }
    if (!C.quick()) Cases.push_back("nN/cr/ee|u"), Cases.push_back("nN/cr/ee|b"), Cases.push_back("nnn/nnn|u"), Cases.push_back("n/n/n/n|u");
    C.Spaces.push_back(mc::listSpace("senders", "two to three threads sending one to two messages each, every kind, on an unbuffered, buffered and pretty-printing stream, under every schedule up to the preemption bound", Cases));
    C.Eval = [](Ctx &X, const Str &, const Str &T) { evalOut(X, T); };
    C.Rule = "the real OutboundPort on a stream that can be preempted inside every write; after every schedule the stream is read back strictly and compared with what was sent";
    C.Assumptions = {"threads interleave at lock operations, log calls and stream writes; preemption bound 2 to 3 for two threads, 1 to 2 for three (quick/thorough)"};
    return C.run();
  }
  if (Id == "P17") {
    C.Spaces.push_back(mc::seqSpace("histories", "all sequences of peer messages and server actions", Ops, 1, C.quick() ? 4 : 5, " "));
    std::vector<Str> Many;
    for (int N : {1, 2, 99, 100, 101, 102, 150, 201})
      for (const char *A : {"", " 1", " 1 2", " 99 100", " 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90", " 101", " 102", " 150"}) {
        std::istringstream IS(A);
        int M, Max = 0;
        while (IS >> M) Max = std::max(M, Max);
        if (Max <= N) Many.push_back(std::to_string(N) + A);
      }
    C.Spaces.push_back(mc::listSpace("many", "numbers of pending calls around the limit, and replies to some of them", Many));
    std::vector<Str> Cases;
    std::vector<Str> Th = {"c", "n", "cc", "cn", "c/c", "c/n", "n/n", "cc/c"};
    if (!C.quick()) Th.push_back("cc/cc"), Th.push_back("c/c/c"), Th.push_back("cn/nc");
    for (auto &A : Th) {
      Str R = A.size() > 3 || A == "n/n" ? C.quick() ? "rdl" : "rdelxm" : "rdelxm";
      int N = 0;
      for (char Ch : A) N += Ch == 'c' ? 1 : Ch == 'n' ? 2 : 0;
      N = std::min(N, 3);
      std::vector<Str> H{""};
      for (int I = 0; I < N; ++I) {
        std::vector<Str> G;
        for (auto &P : H)
          for (char K : R) G.push_back(P + K);
        H = G;
      }
      for (auto &P : H) Cases.push_back(A + "|" + P);
    }
    Cases.push_back("#c|r"), Cases.push_back("#c|rN"), Cases.push_back("#c/c|rrN"), Cases.push_back("#n|rrN");
    C.Spaces.push_back(mc::listSpace("schedules", "one to three threads calling the peer, also from callbacks and with the call table full, while the peer replies, late, twice, with errors or never, under every schedule up to the preemption bound", Cases));
    C.Eval = [](Ctx &X, const Str &Space, const Str &T) {
      if (Space == "histories") evalHist(X, T);
      else if (Space == "many") evalMany(X, T);
      else evalCalls(X, T);
    };
    C.Rule = "the real LSPServer and ports; every reply, callback and handler call is compared with a reference of the pending-call table and the request table";
    C.Assumptions = {"the peer replies only to calls it has read; threads interleave at locks, log calls and stream writes; preemption bound 2 with two calls and 1 with more (quick), 3 and 2 (thorough)"};
    return C.run();
  }
  return 2;
}
