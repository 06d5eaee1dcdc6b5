// P28, P34, P37: the real program, in processes of its own, with scripted
// workers, formatters and clients.
#include "mc/mc.h"
#include "proc/proc.h"
#include "ref/json.h"

using namespace mc;
using pp::Array;
using pp::Object;
using pp::Server;
using pp::Value;
int nixd_main(int Argc, char **Argv);

namespace {
Str Base, Dir; // scratch
bool Quick;
const Str Uri = "file:///w/doc.nix";

void wipe(const Str &P) {
  struct stat St;
  if (lstat(P.c_str(), &St)) return;
  if (S_ISDIR(St.st_mode)) {
    if (DIR *D = opendir(P.c_str())) {
      while (auto *E = readdir(D))
        if (Str N = E->d_name; N != "." && N != "..") wipe(P + "/" + N);
      closedir(D);
    }
    rmdir(P.c_str());
  } else unlink(P.c_str());
}
std::vector<Str> split(const Str &S, char C) {
  std::vector<Str> R;
  for (size_t I = 0; I <= S.size();) {
    size_t J = std::min(S.find(C, I), S.size());
    R.push_back(S.substr(I, J - I));
    I = J + 1;
  }
  return R;
}

/// Ends a session; the process must end by itself, with the status given.
void finish(Ctx &X, Server &S, const Str &Head, int Status = 0) {
  auto *R = S.await(S.call("shutdown", nullptr));
  if (!R) X.fail("unanswered", Head + "shutdown is not answered; " + S.errors());
  S.notify("exit", nullptr);
  if (!S.reap(S.Limit)) X.fail("no-exit", Head + "still running after exit");
  else if (!WIFEXITED(*S.Status) || WEXITSTATUS(*S.Status) != Status) X.fail("exit-status", Head + S.exitText() + "; " + S.errors());
  if (int N = S.leftovers()) X.fail("leftover", Head + std::to_string(N) + " processes outlive the server");
  if (!S.Broken.empty()) X.fail("output", Head + S.Broken);
}

// ---- P34 -------------------------------------------------------------------
enum { CSess, CReq, CLost, CHealthy };
const Str Text = "{ pkgs, lib, ... }:\n{ services.xy = pkgs.hello;\n  a = with pkgs; [ wone ]; b = pkgs.wo; }\n";
struct Req {
  Str Name, Method, Needs; // the worker that is asked
  std::function<Value()> Params;
  Str Shows; // what a healthy worker's answer makes visible
};
Object atText(const Str &What, int Plus) {
  size_t I = Text.find(What);
  int L = std::count(Text.begin(), Text.begin() + I, '\n');
  size_t B = Text.rfind('\n', I);
  return pp::at(Uri, L, I - (B == Str::npos ? 0 : B + 1) + Plus);
}
Object doc() { return Object{{"textDocument", Object{{"uri", Uri}}}}; }
const std::vector<Req> &reqs() {
  static const std::vector<Req> R = {
      {"hover", "textDocument/hover", "nixpkgs", [] { return atText("hello", 1); }, "wdesc"},
      {"definition", "textDocument/definition", "nixpkgs", [] { return atText("hello", 1); }, "/w/p"},
      {"complete", "textDocument/completion", "nixpkgs", [] { return atText("pkgs.wo;", 7); }, "\"label\":\"wone\""},
      {"complete-with", "textDocument/completion", "nixpkgs", [] { return atText("wone ]", 4); }, "\"label\":\"wone\""},
      {"inlay", "textDocument/inlayHint", "nixpkgs", [] {
         Object O = doc();
         O["range"] = Object{{"start", pp::pos(0, 0)}, {"end", pp::pos(3, 0)}};
         return O;
       }, "1.0"},
      {"resolve", "completionItem/resolve", "nixpkgs", [] { return Object{{"label", "wone"}, {"data", R"({"Scope":[],"Prefix":"wone"})"}, {"kind", 5}}; }, "wdesc"},
      {"hover-option", "textDocument/hover", "options", [] { return atText("xy =", 1); }, "odesc"},
      {"definition-option", "textDocument/definition", "options", [] { return atText("xy =", 1); }, "opt.nix"},
      {"complete-option", "textDocument/completion", "options", [] { return atText("xy =", 2); }, "oone"},
      {"symbols", "textDocument/documentSymbol", "", [] { return doc(); }, "services"},
  };
  return R;
}
const Req &req(const Str &N) {
  for (auto &R : reqs())
    if (R.Name == N) return R;
  fprintf(stderr, "no request %s\n", N.c_str());
  abort();
}
std::map<Str, Str> Healthy; // request -> answer of a server whose workers are well
Str answer(const Value *V) {
  if (!V) return "none";
  Object O = *V->getAsObject();
  O.erase("id");
  return pp::show(Value(std::move(O)));
}
bool start(Ctx &X, Server &S, const Str &Head) {
  if (!S.initialize()) {
    X.fail("unanswered", Head + "initialize is not answered: " + (S.reap(1) ? S.exitText() : "") + "; " + S.errors());
    return false;
  }
  S.open(Uri, Text);
  return true;
}
void learn(Ctx &X) {
  if (!Healthy.empty()) return;
  Server S(Dir, {});
  if (!start(X, S, "healthy workers: ")) return;
  for (auto &R : reqs()) {
    auto *A = S.await(S.call(R.Method, R.Params()));
    Healthy[R.Name] = answer(A);
    if (Healthy[R.Name].find(R.Shows) == Str::npos || Healthy[R.Name].find("\"error\"") != Str::npos)
      X.fail("healthy", R.Name + " answers " + Healthy[R.Name].substr(0, 500) + " without " + R.Shows);
  }
  finish(X, S, "healthy workers: ");
}
/// How a fault of the answer to a message goes on: 'd' the worker is lost, 's'
/// it never answers again, 'h' it is as good as before, 'e' this answer is lost.
char effect(const Str &F) {
  for (auto *P : {"exit0", "exit1", "kill", "abort", "closeout", "closeboth", "partial", "partialhead", "hugelen", "exitnote"})
    if (F == P) return 'd';
  for (auto *P : {"silent", "partialsilent", "closein"})
    if (F == P) return 's';
  for (auto *P : {"wrongtype", "wrongtype2", "null", "none", "error", "baderror"})
    if (F == P) return 'e';
  return 'h';
}
const std::vector<Str> Faults = {"exit0", "exit1", "kill", "abort", "closeout", "closeboth", "closein", "silent", "partial", "partialhead", "partialsilent", "garbage", "badjson", "notobject", "hugelen",
                                 "wrongtype", "wrongtype2", "null", "none", "error", "baderror", "twice", "strayids", "calls", "exitnote"};

/// A case is "ROLE POINT FAULT,...|request request ...|s or p": one after the
/// other, or all at once.
void evalFault(Ctx &X, const Str &Case, const pp::Options &Opt0 = {}) {
  learn(X);
  auto P = split(Case, '|');
  pp::Options O = Opt0;
  std::map<Str, char> Bad; // worker -> effect
  if (P[0] != "")
    for (auto &F : split(P[0], ',')) {
      O.Script += F + "\n";
      auto W = split(F, ' ');
      char &E = Bad[W[0] == "nixpkgs" ? "nixpkgs" : "options"];
      E = effect(W[2]);
      // An answer that nobody asked for does no harm.
      if (E == 'e' && W[1][0] != 'r') E = 'h';
      if (E == 'e' && W[1] == "r1") E = 'h'; // of the evaluation, not shown
    }
  if (!O.Worker.empty()) Bad["nixpkgs"] = Bad["options"] = O.Worker == "/bin/yes" ? 's' : 'd';
  Str Head = Case + ": ";
  Server S(Dir, O);
  X.add(CSess);
  if (!start(X, S, Head)) return;
  std::vector<std::pair<const Req *, int64_t>> Sent;
  bool Pipelined = P[2] == "p";
  auto check = [&](const Req &R, int64_t Id) {
    auto It = Bad.find(R.Needs);
    char E = It == Bad.end() ? 'h' : It->second;
    // What waits for a worker that lives and says nothing may wait.
    auto *A = E == 's' ? S.reply(Id) : S.await(Id);
    if (!A) {
      if (E == 's') return X.add(CLost);
      X.fail("unanswered", Head + R.Name + " is not answered" + (S.dead() ? ", the server is gone: " + (S.reap(5) ? S.exitText() : Str()) + " " + S.errors() : ""));
      return;
    }
    Str T = answer(A);
    X.outcome(R.Name + T);
    if (E == 'h') {
      X.add(CHealthy);
      if (T != Healthy[R.Name]) X.fail("answer", Head + R.Name + " answers " + T.substr(0, 600) + "; its worker is well, then the answer is " + Healthy[R.Name].substr(0, 600));
    }
  };
  for (auto &N : split(P[1], ' ')) {
    auto &R = req(N);
    X.add(CReq);
    Sent.push_back({&R, S.call(R.Method, R.Params())});
    if (!Pipelined) check(R, Sent.back().second);
  }
  if (Pipelined)
    for (auto &[R, Id] : Sent) check(*R, Id);
  auto &L = reqs().back();
  check(L, S.call(L.Method, L.Params()));
  int Ch = 0, Fd = 0;
  S.until([&] {
    Ch = pp::children(S.Pid).size(), Fd = pp::descriptors(S.Pid);
    return Ch <= 2 && Fd <= 3 + 3 * 2;
  });
  if (Ch > 2) X.fail("processes", Head + std::to_string(Ch) + " child processes for two workers");
  if (Fd > 3 + 3 * 2) X.fail("descriptors", Head + std::to_string(Fd) + " open descriptors for two workers");
  finish(X, S, Head);
  for (auto &[R, Id] : Sent) {
    int N;
    S.reply(Id, &N);
    if (N > 1) X.fail("answered-twice", Head + R->Name + " got " + std::to_string(N) + " answers");
  }
  if (Str E = pp::slurp(Dir + "/errors"); E != "") X.fail("worker-input", Head + E);
}
/// A case is a script and a sequence of configurations, each the names of the
/// options configured.
void evalConfigs(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  pp::Options O;
  for (auto &F : split(P[0], ',')) O.Script += F + "\n";
  Str Head = Case + ": ";
  Server S(Dir, O);
  X.add(CSess);
  if (!start(X, S, Head)) return;
  auto settle = [&](const std::set<Str> &Names) {
    // nixpkgs, nixos, and one for each name.
    size_t Want = 2;
    for (auto &N : Names) Want += N != "nixos";
    size_t Ch = 0;
    int Fd = 0;
    if (!S.until([&] {
          Ch = pp::children(S.Pid).size(), Fd = pp::descriptors(S.Pid);
          return Ch == Want && Fd == int(3 + 3 * Want);
        }))
      X.fail(S.dead() ? "crash" : "release", Head + std::to_string(Ch) + " child processes and " + std::to_string(Fd) + " descriptors for " + std::to_string(Want) + " workers" + (S.dead() ? " " + S.errors() : ""));
  };
  settle({});
  for (auto &C : split(P[1], ';')) {
    std::set<Str> Names;
    Object Opts;
    for (auto &N : split(C, ','))
      if (N != "") Names.insert(N), Opts[N] = Object{{"expr", "E" + N}};
    S.Config = Object{{"options", std::move(Opts)}};
    S.notify("workspace/didChangeConfiguration", Object{{"settings", Object{}}});
    settle(Names);
    auto &R = req("hover-option");
    X.add(CReq);
    if (!S.await(S.call(R.Method, R.Params()))) X.fail("unanswered", Head + R.Name + " is not answered " + S.errors());
    if (X.failed()) return;
  }
  finish(X, S, Head);
}
void spaces34(Check &C) {
  C.Counters = {"sessions", "requests", "requests_waiting_for_silent_worker", "answers_equal_to_healthy"};
  C.Rule = "The real program is run in a process of its own with worker processes that act out every stated fault at every stated point of the protocol; every request has to be answered once, with the answer of a healthy server wherever the worker it needs is well, and processes and descriptors are counted.";
  C.Assumptions = {"a worker that lives and never answers holds up only the requests that ask it, and at most as many as there are threads are tried", "the evaluator itself is not available here: scripted processes speak its protocol"};
  std::vector<Str> Names;
  for (auto &R : reqs()) Names.push_back(R.Name);
  std::vector<Str> One, Two, Pairs;
  std::vector<Str> Roles = {"nixpkgs", "nixos"};
  for (auto &F : Faults)
    for (auto &R : Roles)
      for (auto *Pt : {"s", "r1", "a1", "r2", "a2"})
        for (auto &N : Names)
          if (N != "symbols") One.push_back(R + " " + Pt + " " + F + "|" + N + "|s");
  C.Spaces.push_back(listSpace("fault", "every fault of either worker at its start and before and after its first two answers, and one request", One));
  std::vector<Str> Lethal = Quick ? std::vector<Str>{"kill", "closeout", "silent"} : Faults;
  for (auto &F : Lethal)
    for (auto &R : Roles)
      for (auto *Pt : {"a1", "r2", "a2", "r3"})
        for (auto &N : Names)
          for (auto &M : Names)
            if (!Quick || (N.find("e-with") + N.find("defin") + N.find("resol") + M.find("e-with") + M.find("defin") + M.find("resol") == 6 * Str::npos))
              for (auto *Mode : {"s", "p"}) Two.push_back(R + " " + Pt + " " + F + "|" + N + " " + M + "|" + Mode);
  C.Spaces.push_back(listSpace("fault-two", "faults of either worker and two requests, one after the other or at once", Two));
  for (auto &F : Faults)
    for (auto &G : Faults)
      for (auto *Pt : {"r1", "r2"}) Pairs.push_back(Str("nixpkgs ") + Pt + " " + F + ",nixos " + Pt + " " + G + "|hover hover-option|p");
  C.Spaces.push_back(listSpace("fault-both", "faults of both workers at the same point", Pairs));
  std::vector<Str> Start;
  for (auto *W : {"/nonexistent/worker", "/", "/etc/passwd", "/bin/false", "/bin/true", "/bin/cat", "/bin/yes"})
    for (auto &N : Names)
      for (auto &M : Names) Start.push_back(Str(W) + "|" + N + " " + M + "|p");
  C.Spaces.push_back(listSpace("no-worker", "programs that are no workers, or none at all", Start));
  std::vector<Str> Lim;
  for (int N = 4; N <= 16; ++N)
    for (auto &M : Names) Lim.push_back(std::to_string(N) + "|" + M + " hover hover-option|p");
  C.Spaces.push_back(listSpace("descriptors", "every limit of descriptors up to 16", Lim));
  std::vector<Str> Cf;
  std::vector<Str> Confs = {"", "o1", "o1,o2", "o2", "nixos", "nixos,o2"};
  for (auto *F : {"o1 s silent", "o1 r1 kill", "o1 r1 exit0", "o1 a1 closeout", "o1 r2 exit1,o2 s kill", "nixos r1 kill,o2 s closeboth", "nixpkgs r1 kill,o1 r2 partial", "x s kill"})
    for (auto &A : Confs)
      for (auto &B : Confs)
        for (auto &D : Quick ? std::vector<Str>{"", "o1"} : Confs) {
          // A live worker that says nothing is asked for hover.
          if (Str(F) == "o1 s silent" && (A.find("o1") != Str::npos || B.find("o1") != Str::npos || D.find("o1") != Str::npos)) continue;
          Cf.push_back(Str(F) + "|" + A + ";" + B + ";" + D);
        }
  C.Spaces.push_back(listSpace("configurations", "three configurations of options in turn, with faulty option workers", Cf));
  C.Eval = [](Ctx &X, const Str &Sp, const Str &T) {
    if (Sp == "configurations") return evalConfigs(X, T);
    pp::Options O;
    Str Case = T;
    if (Sp == "no-worker") {
      O.Worker = T.substr(0, T.find('|'));
      Case = T.substr(T.find('|'));
    } else if (Sp == "descriptors") {
      O.Descriptors = atoi(T.c_str());
      O.Worker = pp::helper(); // may or may not be started
      Case = T.substr(T.find('|'));
    }
    evalFault(X, Case, O);
  };
}

// ---- P28 -------------------------------------------------------------------
enum { CForm, CEdits, CErrors, CRestarts };
Server *F28 = nullptr;
std::map<Str, Str> Open28; // uri -> text
Value Command28 = nullptr;
Str sized(size_t N) {
  Str T = "#\xc3\xa9\xf0\x9f\x98\x80 ";
  while (T.size() < N) T += T.size() % 61 ? Str("a") : Str("\n#");
  T.resize(N);
  return T;
}
Object at28(const Str &U) { return Object{{"textDocument", Object{{"uri", U}}}, {"options", Object{{"tabSize", 2}, {"insertSpaces", true}}}}; }
Server &server28(Ctx &X, const Value &Command) {
  if (F28 && (F28->dead() || !F28->Broken.empty())) delete F28, F28 = nullptr, X.add(CRestarts);
  if (!F28) {
    pp::Options O;
    O.Worker = "/bin/false";
    F28 = new Server(Dir, O);
    F28->Config = Object{{"formatting", Object{{"command", Command}}}};
    Open28.clear();
    Command28 = nullptr;
    if (!F28->initialize()) X.fail("unanswered", "initialize is not answered " + F28->errors());
    F28->open("file:///w/probe.nix", "x: y");
  }
  if (Command28 != Command) {
    F28->Config = Object{{"formatting", Command.getAsString() ? Command : Value(Object{{"command", Command}})}};
    Command28 = Command;
    // The diagnostics of the probe are sent again when the command is in effect.
    auto probes = [&] {
      int N = 0;
      for (auto &M : F28->Msgs)
        if (auto *O = M.getAsObject(); O->getString("method") == std::optional<llvm::StringRef>("textDocument/publishDiagnostics"))
          if (auto *P = O->getObject("params"); P->getString("uri") == std::optional<llvm::StringRef>("file:///w/probe.nix")) ++N;
      return N;
    };
    F28->Limit = 15;
    F28->await(F28->call("textDocument/documentSymbol", Object{{"textDocument", Object{{"uri", "file:///w/probe.nix"}}}}));
    // initialize fetches the configuration, too: let that happen first
    F28->until([&] { return F28->ConfigAsked > 0; });
    int N = probes(), A = F28->ConfigAsked;
    F28->notify("workspace/didChangeConfiguration", Object{{"settings", Object{}}});
    if (!F28->until([&] { return F28->ConfigAsked > A && probes() > N; })) X.fail("configuration", "the configuration of the command has no effect " + F28->errors());
  }
  F28->Msgs.clear();
  return *F28;
}
void ensure(Server &S, const Str &U, const Str &T) {
  auto It = Open28.find(U);
  if (It != Open28.end() && It->second == T) return;
  S.open(U, T);
  Open28[U] = T;
}
/// The text after the edits, nothing if they are no list of edits.
std::optional<Str> edited(const Str &T, const Value &R) {
  auto *A = R.getAsArray();
  if (!A || A->size() > 1) return std::nullopt;
  if (A->empty()) return T;
  auto *O = (*A)[0].getAsObject();
  auto *G = O ? O->getObject("range") : nullptr;
  auto N = O ? O->getString("newText") : std::nullopt;
  if (!G || !N) return std::nullopt;
  auto off = [&](const Object *P) -> std::optional<size_t> {
    if (!P) return std::nullopt;
    auto L = P->getInteger("line"), C = P->getInteger("character");
    if (!L || !C) return std::nullopt;
    size_t I = 0;
    for (int64_t K = 0; K < *L; ++K) {
      size_t J = T.find('\n', I);
      if (J == Str::npos) return T.size();
      I = J + 1;
    }
    size_t E = std::min(T.find('\n', I), T.size());
    for (int64_t K = 0; K < *C && I < E;) {
      unsigned char B = T[I];
      size_t W = B < 0x80 ? 1 : B < 0xe0 ? 2 : B < 0xf0 ? 3 : 4;
      K += W == 4 ? 2 : 1, I += W;
    }
    return std::min(I, E);
  };
  auto A0 = off(G->getObject("start")), A1 = off(G->getObject("end"));
  if (!A0 || !A1 || *A1 < *A0) return std::nullopt;
  return T.substr(0, *A0) + N->str() + T.substr(*A1);
}
bool utf8(const Str &S) { return llvm::json::isUTF8(S); }
Str brief(const Str &S) { return S.size() > 200 ? esc(S.substr(0, 100)) + "...(" + std::to_string(S.size()) + " bytes)" : esc(S); }
/// What the script writes, nothing if it fails.
std::optional<Str> runs(const Str &Script, const Str &In, const Str &Out = "") {
  Str R;
  size_t P = 0;
  bool I = true, O = true;
  Str Got;
  for (char C : Script) switch (C) {
    case 'R':
      if (I) Got += In.substr(P), P = In.size();
      break;
    case 'h':
      if (I) Got += In.substr(P, 1000), P = std::min(In.size(), P + 1000);
      break;
    case 'c':
      if (O) R += Got;
      Got = "";
      if (I) {
        if (O) R += In.substr(P);
        P = In.size();
      }
      break;
    case 'w':
      if (O) R += "w\n";
      break;
    case 'W':
      if (O) R += Str(200 << 10, 'W');
      break;
    case '=':
      if (O) R += Out;
      break;
    case 'i': I = false; break;
    case 'o': O = false; break;
    case '0': return utf8(R) ? std::optional<Str>(R) : std::nullopt;
    case '1' ... '9':
    case 'k':
    case 's': return std::nullopt;
    }
  return utf8(R) ? std::optional<Str>(R) : std::nullopt;
}
void judge(Ctx &X, const Str &Head, Server &S, const Value *A, const Str &T, const std::optional<Str> &Exp) {
  X.add(CForm);
  if (!A) return X.fail("unanswered", Head + "no answer" + (S.dead() ? ", the server is gone " + S.errors() : ""));
  auto *O = A->getAsObject();
  auto *R = O->get("result");
  X.outcome(Exp ? *Exp == T ? "same" : "edits" : "error");
  if (!Exp) {
    X.add(CErrors);
    if (!O->get("error")) X.fail("no-error", Head + "the formatter failed, the answer is " + brief(pp::show(*A)));
    return;
  }
  X.add(CEdits);
  if (!R) return X.fail("error", Head + "the formatter wrote " + brief(*Exp) + ", the answer is " + brief(pp::show(*A)));
  auto G = edited(T, *R);
  if (!G) return X.fail("edits", Head + brief(pp::show(*A)));
  if (*G != *Exp) X.fail("text", Head + "the edits give " + brief(*G) + ", the formatter wrote " + brief(*Exp));
}
void setScript(const Str &T, const Str &Out = "") {
  pp::spit(Dir + "/fmt", T);
  pp::spit(Dir + "/out", Out);
  for (auto *F : {"/go", "/claim0", "/claim1"}) unlink((Dir + F).c_str());
}
Array fmt() { return Array{pp::helper(), "fmt", Dir + "/fmt"}; }
/// Everything is released after an answer.
void quiet28(Ctx &X, Server &S, const Str &Head, bool Fresh = true) {
  size_t Ch = 0;
  int Fd = 0;
  if (!S.until([&] {
        Ch = pp::children(S.Pid).size(), Fd = pp::descriptors(S.Pid);
        return Ch <= 2 && Fd <= 3 + 3 * 2;
      }))
    X.fail(S.dead() ? "crash" : "release", Head + std::to_string(Ch) + " child processes and " + std::to_string(Fd) + " descriptors remain " + S.errors());
}
void evalScript(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  Str T = sized(atoi(P[0].c_str()));
  auto &S = server28(X, fmt());
  if (X.failed()) return;
  Str U = "file:///w/s" + P[0] + ".nix";
  ensure(S, U, T);
  setScript(P[1]);
  judge(X, Case + ": ", S, S.await(S.call("textDocument/formatting", at28(U))), T, runs(P[1], T));
  if (!X.failed()) quiet28(X, S, Case + ": ");
}
void evalOutput(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  auto &S = server28(X, fmt());
  if (X.failed()) return;
  Str U = "file:///w/out.nix";
  ensure(S, U, P[0]);
  setScript("R=0", P[1]);
  judge(X, esc(Case) + ": ", S, S.await(S.call("textDocument/formatting", at28(U))), P[0], runs("R=0", P[0], P[1]));
}
void evalCommand(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  auto C = llvm::json::parse(P[0]);
  if (!C) abort();
  auto &S = server28(X, *C);
  if (X.failed()) return;
  Str T = "{ a=1; }\n", U = "file:///w/cmd.nix";
  ensure(S, U, T);
  std::optional<Str> Exp;
  Str To = U;
  if (P[1] == "unopened") To = "file:///w/never.nix";
  else if (P[1] == "closed") {
    S.notify("textDocument/didClose", Object{{"textDocument", Object{{"uri", U}}}});
    Open28.erase(U);
  } else if (P[2] != "-") Exp = P[2] == "=" ? T : P[2];
  judge(X, Case + ": ", S, S.await(S.call("textDocument/formatting", at28(To))), T, Exp);
  if (!X.failed()) quiet28(X, S, Case + ": ");
}
/// Two formatters at once.
void evalPair(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  Str T = sized(atoi(P[0].c_str()));
  auto &S = server28(X, fmt());
  if (X.failed()) return;
  Str U = "file:///w/s" + P[0] + ".nix";
  ensure(S, U, T);
  setScript(P[1] + "\n" + P[2] + "\n");
  int64_t A = S.call("textDocument/formatting", at28(U)), B = S.call("textDocument/formatting", at28(U));
  auto *RA = S.await(A), *RB = RA ? S.await(B) : nullptr;
  RA = S.reply(A);
  X.add(CForm, 2);
  if (!RA || !RB) {
    X.fail("unanswered", Case + ": one of them got no answer");
    delete F28, F28 = nullptr;
    return;
  }
  auto text = [&](const Value *V) -> Str {
    auto *R = V->getAsObject()->get("result");
    auto G = R ? edited(T, *R) : std::nullopt;
    return G ? *G : "\x01error";
  };
  std::multiset<Str> Got{text(RA), text(RB)}, Want;
  for (int I : {1, 2}) Want.insert(runs(P[I], T).value_or("\x01error"));
  X.outcome(Case);
  if (Got != Want) X.fail("text", Case + ": answers are not what the formatters wrote");
  quiet28(X, S, Case + ": ");
}
/// The document changes while the formatter runs.
void evalMeanwhile(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  Str T = sized(atoi(P[0].c_str()));
  auto &S = server28(X, fmt());
  if (X.failed()) return;
  Str U = "file:///w/mean.nix";
  S.open(U, T);
  setScript(P[1] + "\n");
  int64_t A = S.call("textDocument/formatting", at28(U));
  struct stat St;
  S.until([&] { return !stat((Dir + "/claim0").c_str(), &St); });
  if (P[2] == "change") S.notify("textDocument/didChange", Object{{"textDocument", Object{{"uri", U}, {"version", 2}}}, {"contentChanges", Array{Object{{"text", "y"}}}}});
  if (P[2] == "close") S.notify("textDocument/didClose", Object{{"textDocument", Object{{"uri", U}}}});
  if (P[2] == "symbols" && !S.await(S.call("textDocument/documentSymbol", Object{{"textDocument", Object{{"uri", "file:///w/probe.nix"}}}}))) X.fail("blocked", Case + ": other requests are not answered while the formatter runs");
  pp::spit(Dir + "/go", "");
  judge(X, Case + ": ", S, S.await(A), T, runs(P[1], T));
}
void spaces28(Check &C) {
  C.Counters = {"formattings", "expected_edits", "expected_errors", "server_restarts"};
  C.Rule = "The real program formats documents of every stated size with a formatter process that performs every stated script of steps: reading, writing, closing its ends and ending in every order.";
  C.Assumptions = {"a formatter that neither ends nor closes its output holds up its own request only", "a text that is not UTF-8 cannot be sent and has to be an error", "the end of an edit's range may lie behind the text, as the protocol allows"};
  std::vector<Str> Sc, Out, Cm, Pa, Me;
  std::vector<Str> Sizes = {"0", "1", "65536", "65537", "300000"};
  if (!Quick) Sizes.insert(Sizes.end(), {"4096", "4097", "65535", "1048576"});
  std::vector<Str> Bodies{""};
  Str Steps = "RhcwWeEiod";
  for (size_t B = 0, L = 0; L < (Quick ? 3 : 4); ++L)
    for (size_t E = Bodies.size(); B < E; ++B)
      for (char Z : Steps) Bodies.push_back(Bodies[B] + Z);
  for (auto *B : {"hwR", "hWc", "WRc", "ERc", "RWE", "hEW", "oER", "diR", "oiE", "WiE", "hhc", "wcw", "WcW", "EcE", "iWE", "odR", "odc", "hod", "hid"}) Bodies.push_back(B);
  std::sort(Bodies.begin(), Bodies.end());
  Bodies.erase(std::unique(Bodies.begin(), Bodies.end()), Bodies.end());
  for (auto &Z : Sizes)
    for (auto &B : Bodies)
      for (char E : Str(B.size() < 2 ? "0123ks" : "01k")) Sc.push_back(Z + "|" + B + E);
  C.Spaces.push_back(listSpace("scripts", "every script of steps of the formatter, for every size of the document", Sc));
  std::vector<Str> Tx = {"", "a", "a\n", "\n", "\xc3\xa9\xf0\x9f\x98\x80", "x = \"\\\\\";\r\n", "a\n\nb"};
  Space Seq = seqSpace("", "", {"a", "\n", "\r\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "\"", "\\", "\x01", "\x7f", "\xff", "\xc3"}, 0, Quick ? 2 : 3);
  for (auto &T : Tx)
    for (uint64_t I = 0; I < Seq.Size; ++I) Out.push_back(T + "|" + Seq.At(I));
  C.Spaces.push_back(listSpace("output", "every short output of the formatter", Out));
  struct K {
    const char *C, *E;
  };
  for (auto &Z : std::vector<K>{{R"J(["/nonexistent"])J", "-"}, {R"J([""])J", "-"}, {R"J([])J", "-"}, {R"J("")J", "-"}, {R"J(["/"])J", "-"}, {R"J(["/etc/passwd"])J", "-"}, {R"J(["false"])J", "-"},
                                {R"J(["true"])J", ""}, {R"J("true")J", ""}, {R"J(["cat"])J", "="}, {R"J(["/bin/cat"])J", "="}, {R"J(["cat","-"])J", "="}, {R"J(["cat","--nope"])J", "-"},
                                {R"J(["echo","a b","\u00e9 \"'$x`"])J", "a b \xc3\xa9 \"'$x`\n"}, {R"J(["sh","-c","cat; exit 7"])J", "-"}, {R"J(["sh","-c","printf done"])J", "done"},
                                {R"J(["sh","-c","cat >/dev/null; kill -9 $$"])J", "-"}, {R"J(["sh","-c","exec <&- >&-; exit 0"])J", ""}, {R"J(["sh","-c","head -c 1"])J", "{"},
                                {R"J(["echo",""])J", "\n"}, {R"J(["echo"])J", "\n"}, {R"J(["nixfmt-that-is-missing"])J", "-"}})
    for (auto *D : {"open", "unopened", "closed"}) Cm.push_back(Str(Z.C) + "|" + D + "|" + Z.E);
  C.Spaces.push_back(listSpace("commands", "commands that can and cannot be run, for documents that are and are not open", Cm));
  std::vector<Str> Wait = {"tc0", "htc0", "Wtc0", "Rtc0", "wt1", "Etc0", "otR0", "itw0"}, Go = {"Rcf0", "cf0", "Wcf0", "hcf0", "fR1", "RfEc0", "Rfk", "odRf0"};
  for (auto &Z : Sizes)
    for (auto &A : Wait)
      for (auto &B : Go) Pa.push_back(Z + "|" + A + "|" + B), Pa.push_back(Z + "|" + B + "|" + A);
  C.Spaces.push_back(listSpace("two", "two formatters at once, one of which waits until the other has ended its work", Pa));
  for (auto &Z : Sizes)
    for (auto &A : Wait)
      for (auto *M : {"change", "close", "symbols"}) Me.push_back(Z + "|" + A + "|" + M);
  C.Spaces.push_back(listSpace("meanwhile", "the document is changed or closed, or something else is asked, while the formatter runs", Me));
  C.Eval = [](Ctx &X, const Str &Sp, const Str &T) {
    if (Sp == "scripts") evalScript(X, T);
    if (Sp == "output") evalOutput(X, T);
    if (Sp == "commands") evalCommand(X, T);
    if (Sp == "two") evalPair(X, T);
    if (Sp == "meanwhile") evalMeanwhile(X, T);
    if (X.failed()) delete F28, F28 = nullptr;
  };
}
// ---- P37 -------------------------------------------------------------------
enum { CLives, CReqs, CExits0, CExits1, CProbes };
/// A case is WORKERS|MESSAGES|ENDING|p or s. Messages: I initialize, i
/// initialized, S shutdown, E exit, O open, H hover, F format (the formatter
/// never ends), U unknown request, N unknown notification, C configuration
/// changed, X cancel, G garbage. Endings: eof, header (eof inside a header),
/// body (eof inside a body), gone (the client dies, the pipes stay), client
/// (another process named as the client dies).
void evalLife(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  pp::Options O;
  O.Args.push_back("--config=" + pp::show(Object{{"formatting", Object{{"command", fmt()}}}}));
  if (P[0] == "none") O.Worker = "/nonexistent";
  if (P[0] == "silent") O.Script = "nixpkgs r1 silent\nnixos r1 silent\n";
  if (P[0] == "busy") O.Script = "nixpkgs r2 silent\nnixos r2 silent\n";
  if (P[0] == "dead") O.Script = "nixpkgs s kill\nnixos s kill\n";
  bool Silent = P[0] == "silent" || P[0] == "busy";
  setScript("z\n");
  O.Middle = P[2] == "gone";
  pid_t Other = -1;
  if (P[2] == "client") {
    Other = fork();
    if (!Other) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      while (true) pause();
    }
    O.Args.push_back("--clientProcessId=" + std::to_string(Other));
  }
  Str Head = Case + ": ";
  Server S(Dir, O);
  S.Limit = 20;
  X.add(CLives);
  struct Call {
    char C;
    int64_t Id;
    bool Needed; ///< has to be answered
  };
  std::vector<Call> Calls;
  bool Shut = false, Exit = false, Init = false;
  auto call = [&](char C, llvm::StringRef M, Value V, bool Needed = true) {
    int64_t Id = S.call(M, std::move(V));
    if (Exit) return;
    Calls.push_back({C, Id, Needed});
    X.add(CReqs);
    if (P[3] == "s" && Needed) S.await(Id);
  };
  for (char C : P[1]) switch (C) {
    case 'I': call(Init ? 'J' : 'I', "initialize", Object{{"processId", nullptr}, {"rootUri", nullptr}, {"capabilities", S.caps()}}), Init |= !Exit; break;
    case 'i': S.notify("initialized", Object{}); break;
    case 'S': call('S', "shutdown", nullptr), Shut |= !Exit; break;
    case 'E': S.notify("exit", nullptr), Exit = true; break;
    case 'O': S.open(Uri, Text); break;
    case 'H': call('H', "textDocument/hover", atText("hello", 1), !Silent); break;
    case 'F': call('F', "textDocument/formatting", at28(Uri), false); break;
    case 'U': call('U', "some/thing", Object{}); break;
    case 'N': S.notify("some/note", Object{}); break;
    case 'C': S.notify("workspace/didChangeConfiguration", Object{{"settings", nullptr}}); break;
    case 'X': S.notify("$/cancelRequest", Object{{"id", 1}}); break;
    case 'G': S.raw("Content-Length: 3\r\n\r\n{]}"); break;
    }
  // The server's own requests are answered before the end.
  if (P[2] == "header") S.raw("Content-Len");
  if (P[2] == "body") S.raw("Content-Length: 1000\r\n\r\n{\"jsonrpc\":\"2.0\",");
  double T = pp::now();
  if (P[2] == "gone" || P[2] == "client") {
    if (!Exit) {
      for (auto &C : Calls)
        if (C.Needed) S.await(C.Id);
      S.await(S.call("is/it/up", nullptr));
    }
    pid_t Who = O.Middle ? S.Client : Other;
    if (O.Middle) S.Client = S.Pid; // no more
    kill(Who, SIGKILL);
    waitpid(Who, nullptr, 0);
  } else S.closeIn();
  bool Ended = S.reap(S.Limit);
  S.until([&] { return S.Eof; }, 5);
  if (Other > 0 && P[2] != "client") kill(Other, SIGKILL);
  if (!Ended) {
    X.fail("no-exit", Head + "still running " + std::to_string(int(pp::now() - T)) + " s after the end; " + S.errors());
  } else {
    Str E = S.exitText();
    if (!WIFEXITED(*S.Status) || WEXITSTATUS(*S.Status) > 1) X.fail("crash", Head + E + "; " + S.errors());
    else if (bool Good = WEXITSTATUS(*S.Status) == 0; Exit ? Good != Shut : Good && !Shut) X.fail("exit-status", Head + E);
    X.add(WIFEXITED(*S.Status) && !WEXITSTATUS(*S.Status) ? CExits0 : CExits1);
    X.outcome(P[1] + E);
  }
  if (int N = S.leftovers()) X.fail("leftover", Head + std::to_string(N) + " processes outlive the server");
  if (!S.Broken.empty()) X.fail("output", Head + S.Broken);
  if (!X.failed())
    for (auto &C : Calls) {
      int N = 0;
      auto *R = S.reply(C.Id, &N);
      Str Name = Str(1, C.C) + " (" + std::to_string(C.Id) + ")";
      if (N > 1) X.fail("answered-twice", Head + Name + " has " + std::to_string(N) + " answers");
      if (!R) {
        if (C.Needed) X.fail("unanswered", Head + Name + " is not answered; " + S.errors());
        continue;
      }
      auto *Ob = R->getAsObject();
      auto *Er = Ob->getObject("error");
      Str A = pp::show(*R).substr(0, 300);
      if (C.C == 'I' && (!Ob->getObject("result") || !Ob->getObject("result")->getObject("capabilities"))) X.fail("initialize", Head + A);
      if (C.C == 'J' && !Er) X.fail("initialize-again", Head + A);
      if (C.C == 'S' && (Er || !Ob->get("result") || Ob->get("result")->kind() != Value::Null)) X.fail("shutdown", Head + A);
      if (C.C == 'U' && (!Er || Er->getInteger("code") != std::optional<int64_t>(-32601))) X.fail("unknown", Head + A);
    }
}
/// A case is FLAG|method|where it is announced.
void evalProbe(Ctx &X, const Str &Case) {
  auto P = split(Case, '|');
  pp::Options O;
  O.Worker = "/nonexistent";
  if (P[0] != "") O.Args.push_back(P[0]);
  Server S(Dir, O);
  auto *R = S.initialize();
  const Value *Cap = R ? R->getAsObject()->get("result") : nullptr;
  if (!Cap) return X.fail("unanswered", Case + ": no capabilities " + S.errors());
  Cap = Cap->getAsObject()->get("capabilities");
  for (auto &N : split(P[2], '.')) {
    auto *Ob = Cap ? Cap->getAsObject() : nullptr;
    Cap = Ob ? Ob->get(N) : nullptr;
  }
  bool Announced = Cap && Cap->kind() != Value::Null && !(Cap->kind() == Value::Boolean && !*Cap->getAsBoolean());
  S.open(Uri, Text);
  X.add(CProbes);
  auto *A = S.await(S.call(P[1], atText("hello", 1)));
  if (!A) return X.fail("unanswered", Case + ": " + S.errors());
  auto *Er = A->getAsObject()->getObject("error");
  bool Done = !Er || Er->getInteger("code") != std::optional<int64_t>(-32601);
  X.outcome(Announced ? "announced" : "not");
  // Semantic tokens are announced on demand only, by a documented flag.
  bool Optional = P[1] == "textDocument/semanticTokens/full" && P[0] == "";
  if (Announced && !Done) X.fail("not-implemented", Case + " is announced: " + pp::show(*A));
  if (!Announced && Done && !Optional) X.fail("not-announced", Case + " is answered: " + pp::show(*A));
  if (Optional && Announced) X.fail("announced", Case + " without its flag");
  finish(X, S, Case + ": ");
}
void spaces37(Check &C) {
  C.Counters = {"sessions", "requests", "successful_exits", "other_exits", "methods_probed"};
  C.Rule = "The real program runs every stated sequence of life-cycle messages to every stated end, with workers of every stated kind; its answers, its exit status and what it leaves behind are compared with the protocol.";
  C.Assumptions = {"semantic tokens are announced when their documented flag asks for them", "the status after shutdown and the end of input without exit is left open", "a client that dies while a message of its is incomplete also closes its end of the pipe"};
  auto seqs = [](const Str &A, unsigned Min, unsigned Max) {
    std::vector<Str> V;
    for (char Z : A) V.push_back(Str(1, Z));
    Space Sp = seqSpace("", "", V, Min, Max);
    std::vector<Str> R;
    for (uint64_t I = 0; I < Sp.Size; ++I) R.push_back(Sp.At(I));
    return R;
  };
  auto cases = [](const std::vector<Str> &W, const std::vector<Str> &Q, const std::vector<Str> &E, const std::vector<Str> &M) {
    std::vector<Str> R;
    for (auto &A : W)
      for (auto &B : Q)
        for (auto &Z : E)
          for (auto &D : M) R.push_back(A + "|" + B + "|" + Z + "|" + D);
    return R;
  };
  C.Spaces.push_back(listSpace("sequences", "every sequence of messages", cases({"well"}, seqs("ISEHU", 0, Quick ? 4 : 5), {"eof"}, {"p"})));
  C.Spaces.push_back(listSpace("sequences-all", "every sequence of messages of all kinds", cases({"well"}, seqs("IiSEOHFUNCXG", 1, Quick ? 2 : 3), {"eof", "header", "body"}, {"p", "s"})));
  std::vector<Str> Q;
  for (auto &Z : seqs("OHFSCI", 0, Quick ? 2 : 3))
    for (auto *E : {"", "E"}) Q.push_back("Ii" + Z + E);
  C.Spaces.push_back(listSpace("workers", "sequences with workers that are dead, silent or missing", cases({"none", "silent", "busy", "dead"}, Q, {"eof"}, {"p", "s"})));
  C.Spaces.push_back(listSpace("client", "the client dies", cases({"well", "silent", "none"}, {"", "I", "IiO", "IiOH", "IiOF", "IiS", "S", "IiOHF", "G"}, {"gone", "client"}, {"s"})));
  std::vector<Str> Pr;
  for (auto *F : {"", "--semantic-tokens"})
    for (auto *M : {"textDocument/hover|hoverProvider", "textDocument/completion|completionProvider", "completionItem/resolve|completionProvider.resolveProvider", "textDocument/signatureHelp|signatureHelpProvider",
                    "textDocument/declaration|declarationProvider", "textDocument/definition|definitionProvider", "textDocument/typeDefinition|typeDefinitionProvider", "textDocument/implementation|implementationProvider",
                    "textDocument/references|referencesProvider", "textDocument/documentHighlight|documentHighlightProvider", "textDocument/documentSymbol|documentSymbolProvider", "textDocument/codeAction|codeActionProvider",
                    "codeAction/resolve|codeActionProvider.resolveProvider", "textDocument/codeLens|codeLensProvider", "codeLens/resolve|codeLensProvider.resolveProvider", "textDocument/documentLink|documentLinkProvider",
                    "documentLink/resolve|documentLinkProvider.resolveProvider", "textDocument/documentColor|colorProvider", "textDocument/colorPresentation|colorProvider", "textDocument/formatting|documentFormattingProvider",
                    "textDocument/rangeFormatting|documentRangeFormattingProvider", "textDocument/onTypeFormatting|documentOnTypeFormattingProvider", "textDocument/rename|renameProvider", "textDocument/prepareRename|renameProvider.prepareProvider",
                    "textDocument/foldingRange|foldingRangeProvider", "textDocument/selectionRange|selectionRangeProvider", "textDocument/linkedEditingRange|linkedEditingRangeProvider", "textDocument/prepareCallHierarchy|callHierarchyProvider",
                    "callHierarchy/incomingCalls|callHierarchyProvider", "callHierarchy/outgoingCalls|callHierarchyProvider", "textDocument/semanticTokens/full|semanticTokensProvider.full",
                    "textDocument/semanticTokens/full/delta|semanticTokensProvider.full.delta", "textDocument/semanticTokens/range|semanticTokensProvider.range", "textDocument/moniker|monikerProvider",
                    "textDocument/prepareTypeHierarchy|typeHierarchyProvider", "typeHierarchy/supertypes|typeHierarchyProvider", "typeHierarchy/subtypes|typeHierarchyProvider", "textDocument/inlineValue|inlineValueProvider",
                    "textDocument/inlayHint|inlayHintProvider", "inlayHint/resolve|inlayHintProvider.resolveProvider", "textDocument/diagnostic|diagnosticProvider", "workspace/diagnostic|diagnosticProvider.workspaceDiagnostics",
                    "workspace/symbol|workspaceSymbolProvider", "workspaceSymbol/resolve|workspaceSymbolProvider.resolveProvider", "workspace/executeCommand|executeCommandProvider", "textDocument/willSaveWaitUntil|textDocumentSync.willSaveWaitUntil",
                    "workspace/willCreateFiles|workspace.fileOperations.willCreate", "workspace/willRenameFiles|workspace.fileOperations.willRename", "workspace/willDeleteFiles|workspace.fileOperations.willDelete"})
      Pr.push_back(Str(F) + "|" + M);
  C.Spaces.push_back(listSpace("capabilities", "every request of the protocol, against the capability that announces it", Pr));
  C.Eval = [](Ctx &X, const Str &Sp, const Str &T) { Sp == "capabilities" ? evalProbe(X, T) : evalLife(X, T); };
}
} // namespace

int main(int argc, char **argv) {
  if (Str(argv[0]) == "nixd") return nixd_main(argc, argv);
  Check C(argv[1], argc - 1, argv + 1);
  Quick = C.quick();
  C.BudgetS = Quick ? 600 : 3000;
  C.HangS = 200;
  C.Timing = true;
  char Tmp[] = "/tmp/pp.XXXXXX";
  if (!mkdtemp(Tmp)) return 2;
  char B[PATH_MAX];
  Base = realpath(Tmp, B) ? B : Tmp;
  C.WorkerInit = [] {
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    signal(SIGPIPE, SIG_IGN);
    Dir = Base + "/" + std::to_string(getpid());
    mkdir(Dir.c_str(), 0700);
  };
  if (C.Id == "P34") spaces34(C);
  if (C.Id == "P28") spaces28(C);
  if (C.Id == "P37") spaces37(C);
  int R = C.run();
  if (Base.rfind("/tmp/pp.", 0) == 0) wipe(Base);
  return R;
}
