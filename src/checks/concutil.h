// The real Controller, its pool, its workers' input threads and the workers
// themselves under the controlled scheduler.
#pragma once
#include "checks/nixfutil.h"
#include "ctl/session.h"
#include "mc/mc.h"
#include "sched/fakeproc.h"
#include "sched/sched.h"

#include <nixf/Sema/VariableLookup.h>

#include <set>
#include <sstream>

using namespace mc;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
namespace {
enum { CScen, CSched, CSteps, CReq, CPub };
bool Quick;

// ---- what the worker processes do -----------------------------------------
/// Answers name the question, so that an answer that reaches another request is seen.
struct Brain {
  Str Worker, Expr;
  Value answer(const Str &M, const Value &P, bool &Error) {
    auto path = [](const Value *V) {
      Str R;
      if (auto *A = V ? V->getAsArray() : nullptr)
        for (auto &E : *A) R += (R == "" ? "" : ".") + E.getAsString().value_or("?").str();
      return R;
    };
    if (M == "attrset/evalExpr") {
      Expr = P.getAsString().value_or("?").str();
      return nullptr;
    }
    if (M == "attrset/attrpathInfo") {
      Str N = path(&P);
      return Object{{"Meta", Object{{"Type", 1}, {"Location", nullptr}}},
                    {"PackageDesc", Object{{"Name", "name:" + N}, {"PName", nullptr}, {"Version", "v:" + N}, {"Description", "d:" + N}, {"LongDescription", nullptr}, {"Position", "/np/" + N + ":7"}, {"Homepage", nullptr}}},
                    {"ValueDesc", nullptr}};
    }
    if (M == "attrset/attrpathComplete") {
      auto *O = P.getAsObject();
      Str Pre = O->getString("Prefix").value_or("?").str(), S = path(O->get("Scope"));
      return Array{Pre + "_c1_" + S, Pre + "_c2_" + S};
    }
    if (M == "attrset/optionInfo") {
      Str N = path(&P);
      return Object{{"Description", Worker + ":" + N}, {"Declarations", Array{Object{{"uri", "file:///opt/" + Worker + "/" + N}, {"range", cs::range(1, 2, 3, 4)}}}}, {"Definitions", Array{}}, {"Example", nullptr}, {"Default", nullptr}, {"Type", Object{{"Name", "T"}, {"Description", N}}}};
    }
    if (M == "attrset/optionComplete") {
      auto *O = P.getAsObject();
      Str Pre = O->getString("Prefix").value_or("?").str(), S = path(O->get("Scope"));
      return Array{Object{{"Name", Pre + "_o_" + S}, {"Description", nullptr}}, Object{{"Name", Pre + "_p"}, {"Description", Object{{"Description", Worker + ":" + S}, {"Declarations", Array{}}, {"Definitions", Array{}}, {"Example", "ex"}, {"Default", nullptr}, {"Type", nullptr}}}}};
    }
    Error = true;
    return Object{{"code", -32601}, {"message", "no such method"}};
  }
};
/// Replaces an answer: (worker, method) -> the body of "result", or an error if the flag is set.
std::function<bool(const Str &, const Str &, const Value &, Value &, bool &)> Shape;
bool AnyOrder = false, Deviations = false;
Str Silent, Dies; ///< workers that never answer, that end at the first question
void workerMain(fp::Proc &P) {
  Brain B;
  B.Worker = P.Name;
  std::vector<Value> Todo;
  Str Body;
  while (true) {
    bool More = Todo.empty() || P.In.Data.find("\r\n\r\n") != Str::npos;
    if (More) {
      if (!P.message(Body)) return;
      auto V = llvm::json::parse(Body);
      if (!V) return P.exit(1);
      auto *O = V->getAsObject();
      if (O->getString("method") == llvm::StringRef("exit")) return;
      if (O->get("id") && O->getString("method")) Todo.push_back(std::move(*V));
      continue;
    }
    if (P.Name == Silent) {
      Todo.clear();
      continue;
    }
    size_t I = AnyOrder ? sched::choose(Todo.size(), "answer") : 0;
    auto *O = Todo[I].getAsObject();
    Str M = O->getString("method")->str();
    if (P.Name == Dies && M != "attrset/evalExpr") return P.exit(9);
    bool Err = false;
    Value R = nullptr, Par = O->get("params") ? *O->get("params") : Value(nullptr);
    if (!Shape || !Shape(P.Name, M, Par, R, Err)) R = B.answer(M, Par, Err);
    P.reply(cs::show(Object{{"jsonrpc", "2.0"}, {"id", *O->get("id")}, {Err ? "error" : "result", std::move(R)}}));
    Todo.erase(Todo.begin() + I);
    sched::point("worker.reply");
  }
}

// ---- documents, requests, configurations -----------------------------------
const std::vector<Str> Texts = {"{ pkgs, lib }:\n{ services.xy = pkgs.hello; a = with pkgs; [ wone ]; b = pkgs.wo; }\n/* c */ 5\n", "let x = 1; y = ./z; in y\n", "(", "", "with pkgs; [ we ] ++ { a.b = \"${pkgs.q}\"; inherit we; }\n", "{ pkgs }:\n{ services.zz = pkgs.other; a = with pkgs; [ wtwo ]; b = pkgs.xo; }\n"};
const std::vector<Str> Confs = {"{}", R"({"diagnostic":{"suppress":["sema-unused-def-let","parse-unexpected"]}})", R"({"options":{"o1":{"expr":"E"}}})", R"({"nixpkgs":{"expr":"N"},"options":{"nixos":{"expr":"X"}}})", R"({"formatting":{"command":["f"]},"diagnostic":{"suppress":["parse-expected"]}})", R"({"options":{}})"};
Str uri(char D) { return Str("file:///w/") + D + ".nix"; }
struct Req {
  Str Name, Method;
  bool Doc;
  std::function<Object(const Str &)> Params; ///< of a URI
};
Object tdoc(const Str &U) { return Object{{"textDocument", Object{{"uri", U}}}}; }
const std::vector<Req> &reqs() {
  static std::vector<Req> R;
  if (!R.empty()) return R;
  auto at = [](int64_t L, int64_t C) {
    return [=](const Str &U) {
      Object O = tdoc(U);
      O["position"] = cs::pos(L, C);
      return O;
    };
  };
  auto range = [](Object O, int64_t A, int64_t B, int64_t C, int64_t D) {
    O["range"] = cs::range(A, B, C, D);
    return O;
  };
  R = {{"hp", "textDocument/hover", true, at(1, 24)},        // pkgs.hello
       {"hw", "textDocument/hover", true, at(1, 46)},        // wone
       {"ho", "textDocument/hover", true, at(1, 12)},        // services.xy
       {"cp", "textDocument/completion", true, at(1, 66)},   // pkgs.wo
       {"co", "textDocument/completion", true, at(1, 13)},   // services.xy
       {"cv", "textDocument/completion", true, at(1, 48)},   // wone
       {"cr", "completionItem/resolve", false, [](const Str &) { return Object{{"label", "hello"}, {"data", R"({"Scope":["pk"],"Prefix":"he"})"}}; }},
       {"dv", "textDocument/definition", true, at(0, 3)},    // pkgs
       {"dp", "textDocument/definition", true, at(1, 24)},
       {"do", "textDocument/definition", true, at(1, 12)},
       {"ih", "textDocument/inlayHint", true, [=](const Str &U) { return range(tdoc(U), 0, 0, 5, 0); }},
       {"rf", "textDocument/references", true, at(1, 17)},
       {"hl", "textDocument/documentHighlight", true, at(1, 17)},
       {"ds", "textDocument/documentSymbol", true, tdoc},
       {"fr", "textDocument/foldingRange", true, tdoc},
       {"st", "textDocument/semanticTokens/full", true, tdoc},
       {"dl", "textDocument/documentLink", true, tdoc},
       {"ca", "textDocument/codeAction", true, [=](const Str &U) {
          Object O = range(tdoc(U), 1, 2, 1, 4);
          O["context"] = Object{{"diagnostics", Array{}}};
          return O;
        }},
       {"rn", "textDocument/rename", true, [=](const Str &U) {
          Object O = at(0, 3)(U);
          O["newName"] = "nn";
          return O;
        }},
       {"pr", "textDocument/prepareRename", true, at(0, 3)},
       {"fo", "textDocument/formatting", true, [](const Str &U) {
          Object O = tdoc(U);
          O["options"] = Object{{"tabSize", 2}, {"insertSpaces", true}};
          return O;
        }},
       {"sh", "shutdown", false, [](const Str &) { return Object{}; }},
       {"xx", "textDocument/nothing", true, tdoc}};
  return R;
}
const Req &req(const Str &N) {
  for (auto &R : reqs())
    if (R.Name == N) return R;
  abort();
}
std::multiset<Str> diags(const Str &T, const std::set<Str> &Sup) {
  std::vector<nixf::Diagnostic> D;
  auto A = nixf::parse(T, D);
  if (A) {
    nixf::VariableLookupAnalysis V(D);
    V.runOnAST(*A);
  }
  std::multiset<Str> R;
  for (auto &X : D) {
    if (Sup.count(X.sname())) continue;
    auto P = [](auto &Z) { return Str(Z.sname()) + "@" + std::to_string(Z.range().lCur().line()) + ":" + std::to_string(Z.range().lCur().column()); };
    R.insert(P(X));
    for (auto &N : X.notes()) R.insert(P(N));
  }
  return R;
}

// ---- a server under the scheduler ------------------------------------------
struct Sys {
  Str Bytes;
  llvm::raw_string_ostream OS{Bytes};
  lspserver::InboundPort In{-1};
  std::unique_ptr<nixd::Controller> C;
  size_t Parsed = 0;
  std::vector<Value> Out;
  Str Broken;
  struct Asked {
    int64_t Id;
    Str Name;
    std::vector<Str> Could; ///< texts from the request on; "-" for none
    char Doc;
    size_t At = 0; ///< number of messages before it was sent
  };
  std::vector<Asked> Reqs;
  std::map<char, Str> Text; ///< open documents
  std::map<char, int64_t> Version;
  std::map<char, int64_t> LastVersion;
  std::set<Str> Sup;
  int64_t Next = 1;
  bool Conf = true;
  size_t Answered = 0; ///< configuration requests

  Sys() { C = std::make_unique<nixd::Controller>(std::make_unique<lspserver::InboundPort>(-1), std::make_unique<lspserver::OutboundPort>(OS)); }
  void collect() {
    OS.flush();
    if (Broken.empty()) cs::frames(Bytes, Parsed, Out, Broken);
  }
  void dispatch(Object O) {
    O["jsonrpc"] = "2.0";
    In.dispatch(Value(std::move(O)), *C);
  }
  void notify(const Str &M, Object P) { dispatch(Object{{"method", M}, {"params", std::move(P)}}); }
  Str now(char D) { return Text.count(D) ? Text[D] : "-"; }
  void changed(char D) {
    for (auto &R : Reqs)
      if (R.Doc == D && R.Could.back() != now(D)) R.Could.push_back(now(D));
  }
  void op(const Str &T) {
    char D = T.size() > 1 ? T[1] : 'a';
    int K = T.size() > 2 && isdigit(T[2]) ? T[2] - '0' : 0;
    switch (T[0]) {
    case 'I': {
      Object Caps{{"workspace", Object{{"configuration", Conf}}}};
      Reqs.push_back({Next, "in", {"-"}, 0});
      dispatch(Object{{"id", Next++}, {"method", "initialize"}, {"params", Object{{"processId", nullptr}, {"rootUri", nullptr}, {"capabilities", std::move(Caps)}}}});
      break;
    }
    case 'W': sched::quiesce(); break;
    case 'O': // open
      Text[D] = Texts[K];
      Version[D] = ++LastVersion[D];
      changed(D);
      notify("textDocument/didOpen", Object{{"textDocument", Object{{"uri", uri(D)}, {"languageId", "nix"}, {"version", Version[D]}, {"text", Texts[K]}}}});
      break;
    case 'C': // change
      if (Text.count(D)) Text[D] = Texts[K], Version[D] = ++LastVersion[D], changed(D);
      notify("textDocument/didChange", Object{{"textDocument", Object{{"uri", uri(D)}, {"version", LastVersion[D]}}}, {"contentChanges", Array{Object{{"text", Texts[K]}}}}});
      break;
    case 'D': // a change that cannot be applied
      Text.erase(D), Version.erase(D), changed(D);
      notify("textDocument/didChange", Object{{"textDocument", Object{{"uri", uri(D)}, {"version", ++LastVersion[D]}}}, {"contentChanges", Array{Object{{"text", "x"}, {"range", cs::range(90, 0, 91, 0)}}}}});
      break;
    case 'X': // close
      Text.erase(D), Version.erase(D), changed(D);
      notify("textDocument/didClose", Object{{"textDocument", Object{{"uri", uri(D)}}}});
      break;
    case 'K': { // the configuration changes
      K = D - '0';
      notify("workspace/didChangeConfiguration", Object{{"settings", nullptr}});
      collect();
      size_t N = 0;
      for (size_t I = 0; I < Out.size(); ++I)
        if (auto *O = Out[I].getAsObject(); O->getString("method") == llvm::StringRef("workspace/configuration") && N++ >= Answered) {
          ++Answered;
          Value Id = *O->get("id");
          dispatch(Object{{"id", std::move(Id)}, {"result", Array{cantFail(llvm::json::parse(Confs[K]))}}});
        }
      Sup.clear();
      Value V = cantFail(llvm::json::parse(Confs[K]));
      if (auto *G = V.getAsObject()->getObject("diagnostic"))
        for (auto &S : *G->getArray("suppress")) Sup.insert(S.getAsString()->str());
      break;
    }
    case 'R': { // R<request><document>
      Str N = T.substr(1, 2);
      char Z = T.size() > 3 ? T[3] : 'a';
      auto &Q = req(N);
      Reqs.push_back({Next, N, {Q.Doc ? now(Z) : "-"}, Q.Doc ? Z : '\0'});
      dispatch(Object{{"id", Next++}, {"method", Q.Method}, {"params", Q.Params(uri(Z))}});
      break;
    }
    }
  }
};
Str answerOf(const Value &M) {
  auto *O = M.getAsObject();
  if (auto *R = O->get("result")) return cs::show(*R);
  return "error";
}
/// What a request is answered if nothing else happens.
std::map<Str, Str> Expected;
uint64_t runs(Ctx *X, const Str &Setup, const std::function<void(Sys &)> &Ops, unsigned Pre, bool Single, const std::function<void(Sys &, const sched::Outcome &)> &Look, std::vector<unsigned> Fixed = {}) {
  sched::Explorer E;
  E.Preemptions = Pre;
  E.Deviations = Deviations;
  E.Fixed = Fixed;
  E.MaxSteps = Single ? 4000000 : 60000;
  if (getenv("MC_TRACE")) E.Trace = true;
  std::unique_ptr<Sys> S;
  E.Single = Single;
  E.explore(
      [&] {
        fp::reset();
        fp::Main = workerMain;
        S = std::make_unique<Sys>();
        Str T;
        E.Single = true; // the beginning is not what this is about
        for (std::istringstream I(Setup); I >> T;) S->op(T);
        E.Single = Single;
        Ops(*S);
        sched::quiesce();
        S->collect();
        E.Single = true;
        S->C.reset();
        S->collect();
      },
      [&](const sched::Outcome &O) {
        Look(*S, O);
        bool Ok = !O.Deadlock && !O.Limit && O.Thrown.empty();
        if (!Ok) S.release(); // fibers of it are still there
        S.reset();
        return Ok;
      });
  if (X) X->add(CSched, E.Schedules), X->add(CSteps, E.Steps);
  if (E.Capped && X) X->fail("capped", "too many schedules");
  return E.Schedules;
}
std::function<void(Sys &)> script(const Str &Ops) {
  return [Ops](Sys &S) {
    Str T;
    for (std::istringstream I(Ops); I >> T;) {
      S.op(T);
      sched::point("client");
    }
  };
}
const Str Begin = "I W K0 W";
std::vector<Str> ConfsOf{"0"}; ///< configurations of the scenario
const Str &expected(const Str &Name, const Str &Text, const Str &Conf) {
  auto [It, New] = Expected.insert({Name + Conf + Text, ""});
  if (!New) return It->second;
  bool Keep = AnyOrder;
  Str KS = Silent, KD = Dies;
  AnyOrder = false, Silent = Dies = "";
  Str Ops = "R" + Name + "z", Set = "I W K" + Conf + " W";
  Str &R = It->second;
  size_t K = std::find(Texts.begin(), Texts.end(), Text) - Texts.begin();
  if (Text != "-") Set += " Oz" + std::to_string(K);
  auto KeepShape = Shape;
  Shape = nullptr;
  runs(nullptr, Set, script(Ops), 0, true, [&](Sys &S, const sched::Outcome &O) {
    R = "none";
    for (auto &M : S.Out)
      if (auto *P = M.getAsObject(); P->getInteger("id") == S.Reqs.back().Id && !P->get("method")) R = answerOf(M);
  });
  Shape = KeepShape;
  AnyOrder = Keep, Silent = KS, Dies = KD;
  return R;
}
Str renamed(Str S, char D) { // z.nix of the expected answers to the document asked about
  for (size_t I = 0; (I = S.find("/w/z.nix", I)) != Str::npos; ++I) S[I + 3] = D;
  return S;
}

void check(Ctx &X, const Str &Head, Sys &S, const sched::Outcome &O, bool Answers) {
  auto Fail = [&](const char *K, const Str &W) { X.fail(K, Head + W + "; schedule " + O.Schedule); };
  if (!O.Thrown.empty()) return Fail("exception", "an exception ends the server: " + O.Thrown);
  if (O.Deadlock || O.Limit) return Fail("deadlock", O.Note + (O.Limit ? " (goes on forever)" : ""));
  if (!S.Broken.empty()) return Fail("output", S.Broken);
  if (int N = fp::openDescriptors()) Fail("descriptors", std::to_string(N) + " descriptors are left open");
  if (int N = fp::unreaped()) Fail("processes", std::to_string(N) + " processes were not waited for");
  // publications
  std::map<Str, const Object *> Last;
  std::map<int64_t, std::vector<const Value *>> Replies;
  for (auto &M : S.Out) {
    auto *P = M.getAsObject();
    if (P->getString("method") == llvm::StringRef("textDocument/publishDiagnostics")) Last[P->getObject("params")->getString("uri")->str()] = P->getObject("params");
    if (!P->get("method"))
      if (auto Id = P->getInteger("id")) Replies[*Id].push_back(&M);
  }
  for (auto &[D, V] : S.LastVersion) {
    X.add(CPub);
    auto L = Last.find(uri(D));
    if (L == Last.end()) {
      if (S.Text.count(D)) Fail("publication", Str("nothing was published for ") + D);
      continue;
    }
    std::multiset<Str> Got, Want = S.Text.count(D) ? diags(S.Text[D], S.Sup) : std::multiset<Str>{};
    for (auto &E : *L->second->getArray("diagnostics")) {
      auto *Q = E.getAsObject();
      auto *B = Q->getObject("range")->getObject("start");
      Got.insert(Q->getString("code").value_or("?").str() + "@" + std::to_string(*B->getInteger("line")) + ":" + std::to_string(*B->getInteger("character")));
    }
    if (Got != Want) {
      Str A, B;
      for (auto &Z : Got) A += Z + " ";
      for (auto &Z : Want) B += Z + " ";
      Fail("publication", Str("last published for ") + D + ": " + A + ", should be " + B);
    }
    if (auto W = L->second->getInteger("version"); W && S.Version.count(D) && *W != S.Version[D]) Fail("version", "last published version is " + std::to_string(*W) + ", should be " + std::to_string(S.Version[D]));
  }
  for (auto &Q : S.Reqs) {
    X.add(CReq);
    auto &R = Replies[Q.Id];
    if (R.size() != 1) Fail("answers", "request " + Q.Name + " has " + std::to_string(R.size()) + " answers");
    if (R.size() != 1 || Q.Name == "in" || !Answers) continue;
    Str Got = answerOf(*R[0]), Could;
    bool Ok = false;
    for (auto &T : Q.Could)
      for (auto &K : ConfsOf) {
        Str W = renamed(expected(Q.Name, T, K), Q.Doc);
        if (Could.find(W) == Str::npos) Could += (Could == "" ? "" : " or ") + W;
        Ok |= Got == W;
      }
    X.outcome(Q.Name + Got);
    if (!Ok) Fail("answer", "request " + Q.Name + " is answered " + Got + ", should be " + Could);
  }
}

/// Case: PREEMPTIONS:SETUP;OPERATIONS, "a" before the colon for answers in any
/// order, "d" for a bound on all deviations from the first order
void evalScen(Ctx &X, const Str &Case) {
  X.add(CScen);
  size_t A = Case.find(':'), B = Case.find(';');
  Str Mode = Case.substr(0, A), Setup = Case.substr(A + 1, B - A - 1), Ops = Case.substr(B + 1);
  AnyOrder = Mode.find('a') != Str::npos;
  Deviations = Mode.find('d') != Str::npos;
  // the expected answers first: runs do not nest
  ConfsOf.clear();
  {
    Str T, Last = "0";
    for (std::istringstream I(Setup); I >> T;)
      if (T[0] == 'K') Last = T.substr(1);
    ConfsOf.push_back(Last);
    for (std::istringstream I(Ops); I >> T;)
      if (T[0] == 'K') ConfsOf.push_back(T.substr(1));
    for (std::istringstream I(Setup + " " + Ops); I >> T;) {
      if (T[0] != 'R') continue;
      for (auto &K : ConfsOf) {
        expected(T.substr(1, 2), "-", K);
        for (auto &Z : Texts) expected(T.substr(1, 2), Z, K);
      }
    }
  }
  std::vector<unsigned> Fixed;
  if (const char *F = getenv("MC_SCHEDULE"))
    for (std::istringstream I(F); !I.eof();) {
      Str T;
      if (!std::getline(I, T, ',')) break;
      Fixed.push_back(atoi(T.c_str()));
    }
  runs(&X, Setup, script(Ops), Mode[0] - '0', false, [&](Sys &S, const sched::Outcome &O) { check(X, Case + ": ", S, O, true); }, Fixed);
}
} // namespace

