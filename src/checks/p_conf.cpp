// P27: configurations. The real Controller in this process, with forked workers
// that answer every question with the expression they were told to evaluate.
#include "checks/nixfutil.h"
#include "ctl/session.h"
#include "mc/mc.h"

#include <nixf/Sema/VariableLookup.h>

#include <llvm/Support/CommandLine.h>

#include <set>
#include <unistd.h>

using namespace mc;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
namespace {
enum { CSess, CConf, CValid, CPub, CForm };
bool Quick;
const Str Probe = "{ pkgs }:\n{ ab.cd = pkgs.hello; }\n", PUri = "file:///w/probe.nix", FUri = "file:///w/fmt.nix";
/// Texts that have diagnostics of many kinds.
const std::vector<Str> Texts = {"let x = 1; in y", "{ a = 1; a = 2; }", "x: x: 1", "{ a ? 1, a }: b", "rec { a = 1; }", "with { }; 1", "{ pkgs }@args: 1", "(a", "a.b..c", "/* ", "1.0.", "let ${a} = 1; in 2", "{ inherit; }", "http://x.y", "let { body = 1; }",
                                "./a/", "{ a.b = 1; a = rec { c = 2; }; }", "{ a b }: a + b", "{ ..., ... }: 1", "{ ..., a }: a", "if x then", "1 == 2 == 3", "99999999999999999999", "{ a, , b }: a + b", "let true = 1; in true", "''a", "x:: y", "0.5 + .5 + 00.5", "a or b", "{ inherit (a) ${b}; }"};

struct Diag {
  Str Name;
  std::vector<Str> Notes;
};
std::vector<Diag> diags(const Str &T) {
  std::vector<nixf::Diagnostic> D;
  auto A = nixf::parse(T, D);
  if (A) {
    nixf::VariableLookupAnalysis V(D);
    V.runOnAST(*A);
  }
  std::vector<Diag> R;
  for (auto &X : D) {
    R.push_back({X.sname(), {}});
    for (auto &N : X.notes()) R.back().Notes.push_back(N.sname());
  }
  return R;
}
/// Names of all diagnostics of the texts, and of their notes.
const std::vector<Str> &kinds() {
  static std::vector<Str> R;
  if (R.empty()) {
    std::set<Str> S;
    for (auto &T : Texts)
      for (auto &D : diags(T)) {
        S.insert(D.Name);
        S.insert(D.Notes.begin(), D.Notes.end());
      }
    R.assign(S.begin(), S.end());
  }
  return R;
}
Str uri(size_t I) { return "file:///w/t" + std::to_string(I) + ".nix"; }

/// What a configuration means.
struct Conf {
  std::set<Str> Suppress;
  Str Nixpkgs;
  std::map<Str, Str> Options;
  std::vector<Str> Format;
};
Conf Defaults;
std::optional<std::vector<Str>> strings(const Value &V) {
  auto *A = V.getAsArray();
  if (!A) return std::nullopt;
  std::vector<Str> R;
  for (auto &E : *A) {
    auto S = E.getAsString();
    if (!S) return std::nullopt;
    R.push_back(S->str());
  }
  return R;
}
/// The meaning of a document, nothing if it is malformed.
std::optional<Conf> meaning(const Value &V) {
  Conf C = Defaults;
  if (V.kind() == Value::Null) return C; // nothing is configured
  auto *O = V.getAsObject();
  if (!O) return std::nullopt;
  auto expr = [](const Value &W, Str &Out) {
    auto *P = W.getAsObject();
    if (!P) return false;
    if (auto *E = P->get("expr")) {
      auto S = E->getAsString();
      if (!S) return false;
      if (!S->empty()) Out = S->str();
    }
    return true;
  };
  if (auto *D = O->get("diagnostic")) {
    auto *P = D->getAsObject();
    if (!P) return std::nullopt;
    if (auto *S = P->get("suppress")) {
      auto L = strings(*S);
      if (!L) return std::nullopt;
      C.Suppress.insert(L->begin(), L->end());
    }
  }
  if (auto *N = O->get("nixpkgs"); N && !expr(*N, C.Nixpkgs)) return std::nullopt;
  if (auto *P = O->get("options")) {
    auto *M = P->getAsObject();
    if (!M) return std::nullopt;
    for (auto &[K, W] : *M) {
      Str Name = K.str();
      if (!expr(W, C.Options[Name])) return std::nullopt;
    }
  }
  if (auto *F = O->get("formatting")) {
    if (auto S = F->getAsString()) C.Format = {S->str()};
    else {
      auto *P = F->getAsObject();
      if (!P) return std::nullopt;
      if (auto *L = P->get("command")) {
        auto R = strings(*L);
        if (!R) return std::nullopt;
        C.Format = *R;
      }
    }
  }
  return C;
}

struct Srv : cs::Session {
  std::vector<Value> Asked; ///< ids of configuration requests
  size_t Seen = 0;
  std::map<Str, Str> Published; ///< uri -> codes
  void look() {
    for (; Seen < Out.size(); ++Seen) {
      auto *O = Out[Seen].getAsObject();
      auto M = O->getString("method");
      if (!M) continue;
      if (*M == "workspace/configuration") Asked.push_back(*O->get("id"));
      if (*M == "textDocument/publishDiagnostics") {
        auto *P = O->getObject("params");
        Str T;
        for (auto &D : *P->getArray("diagnostics")) T += D.getAsObject()->getString("code").value_or("?").str() + " ";
        Published[P->getString("uri")->str()] = T;
      }
    }
  }
  void answer(size_t I, Value R, bool Error = false) {
    Object O{{"jsonrpc", "2.0"}, {"id", Asked[I]}};
    O[Error ? "error" : "result"] = std::move(R);
    send(std::move(O));
    look();
  }
};
Srv *start(Ctx &X, bool OpenAll) {
  X.add(CSess);
  auto *S = new Srv;
  S->initialize(Object{{"workspace", Object{{"configuration", true}}}});
  S->look();
  S->open(PUri, Probe);
  S->open(FUri, "x\n");
  if (OpenAll)
    for (size_t I = 0; I < Texts.size(); ++I) S->open(uri(I), Texts[I]);
  S->look();
  return S;
}
/// What the server lets see of its configuration.
Conf observe(Srv &S) {
  Conf C;
  Value H = S.result("textDocument/hover", S.at(PUri, 1, 18));
  if (auto *O = H.getAsObject())
    if (auto *K = O->getObject("contents"))
      if (auto V = K->getString("value")) C.Nixpkgs = V->str();
  size_t A = C.Nixpkgs.find('<'), B = C.Nixpkgs.rfind('>');
  C.Nixpkgs = A == Str::npos || B == Str::npos ? "?" + C.Nixpkgs : C.Nixpkgs.substr(A + 1, B - A - 1);
  Value L = S.result("textDocument/completion", S.at(PUri, 1, 7));
  if (auto *O = L.getAsObject())
    if (auto *I = O->getArray("items"))
      for (auto &E : *I) {
        auto *P = E.getAsObject();
        Str Label = P->getString("label").value_or("").str();
        C.Options[P->getString("detail").value_or("").str()] += Label.size() > 1 ? Label.substr(1, Label.size() - 2) : "?" + Label;
      }
  return C;
}
/// What formatting "x\n" gives with a command.
Str formatted(const std::vector<Str> &C) {
  if (C == std::vector<Str>{"echo"}) return "\n";
  if (C.size() == 2 && C[0] == "echo") return C[1] + "\n";
  return "error";
}
Str formats(Srv &S) {
  Value V = S.request("textDocument/formatting", Object{{"textDocument", Object{{"uri", FUri}}}, {"options", Object{{"tabSize", 2}, {"insertSpaces", true}}}});
  auto *O = V.getAsObject();
  auto *R = O ? O->getArray("result") : nullptr;
  if (!R || R->size() != 1) return "error";
  return (*R)[0].getAsObject()->getString("newText").value_or("?").str();
}
void compare(Ctx &X, const Str &Head, Srv &S, const Conf &E, bool Workers, bool Format, bool OpenAll) {
  if (S.Thrown != "") return X.fail("exception", Head + S.Thrown);
  if (OpenAll)
    for (size_t I = 0; I < Texts.size(); ++I) {
      Str W;
      for (auto &D : diags(Texts[I])) {
        if (E.Suppress.count(D.Name)) continue;
        W += D.Name + " ";
        for (auto &N : D.Notes) W += N + " ";
      }
      X.add(CPub);
      X.outcome(W);
      if (S.Published[uri(I)] != W) X.fail("diagnostics", Head + "of " + esc(Texts[I]) + " published are " + S.Published[uri(I)] + ", should be " + W);
    }
  if (Workers) {
    Conf C = observe(S);
    if (C.Nixpkgs != E.Nixpkgs) X.fail("nixpkgs", Head + "nixpkgs is " + C.Nixpkgs + ", should be " + E.Nixpkgs);
    if (C.Options != E.Options) {
      Str M;
      for (auto &[K, V] : C.Options) M += K + "=" + V + " ";
      M += ", should be ";
      for (auto &[K, V] : E.Options) M += K + "=" + V + " ";
      X.fail("options", Head + "options are " + M);
    }
    X.outcome(C.Nixpkgs + cs::show(Value((int64_t)C.Options.size())));
  }
  if (Format) {
    X.add(CForm);
    if (Str F = formats(S); F != formatted(E.Format)) X.fail("formatting", Head + "formatting gives " + esc(F) + ", should give " + esc(formatted(E.Format)));
  }
}

Value parse(const Str &T) {
  auto V = llvm::json::parse(T);
  if (!V) {
    fprintf(stderr, "bad case %s\n", T.c_str());
    abort();
  }
  return *V;
}
Srv *Shared = nullptr;
/// One document after another, from the state the case before left: the last
/// valid one counts.
void evalDoc(Ctx &X, const Str &Case, bool All) {
  if (!Shared) {
    Shared = start(X, All);
    Shared->answer(0, Array{Object{}});
  }
  auto &S = *Shared;
  // a configuration of which nothing may remain
  Value Old = Object{{"diagnostic", Object{{"suppress", Array{"sema-unused-def-let", "parse-expected"}}}}, {"nixpkgs", Object{{"expr", "OLD"}}}, {"options", Object{{"old", Object{{"expr", "OLDO"}}}}}, {"formatting", Object{{"command", Array{"echo", "OLD"}}}}};
  auto give = [&](Value V) {
    S.notify("workspace/didChangeConfiguration", Object{{"settings", nullptr}});
    S.look();
    S.answer(S.Asked.size() - 1, std::move(V));
    X.add(CConf);
  };
  if (!All) give(Array{Old});
  give(parse(Case));
  Value V = parse(Case);
  std::optional<Conf> E;
  if (auto *A = V.getAsArray(); A && !A->empty()) E = meaning((*A)[0]);
  X.add(CValid, bool(E));
  if (!E && All) return; // would be left with the state before
  compare(X, Case + (All ? ": " : " after OLD: "), S, E ? *E : *meaning(Old), !All, !All, All);
  if (X.failed()) delete Shared, Shared = nullptr;
  else S.reset(), S.Seen = 0;
}
const std::vector<Str> Hist = {R"({})", R"(null)", R"({"diagnostic":{"suppress":["sema-unused-def-let"]},"formatting":{"command":["echo","A"]}})",
                               R"({"nixpkgs":{"expr":"NP"},"options":{"o1":{"expr":"E1"}}})", R"({"options":{"o1":{"expr":"F1"},"o2":{"expr":"E2"},"nixos":{"expr":"NX"}},"formatting":"echo"})",
                               R"({"diagnostic":{"suppress":["parse-expected","nothing"]},"nixpkgs":{"expr":"NQ"},"formatting":{"command":["echo","B"]}})", R"({"diagnostic":{"suppress":7},"nixpkgs":{"expr":"BAD"}})"};
/// Letters 0..6 ask for and are answered with that document, e with an error, n
/// with none. A case is LETTERS|order in which they are answered|order in which
/// the posted work runs.
void evalHist(Ctx &X, const Str &Case) {
  size_t A = Case.find('|'), B = Case.find('|', A + 1);
  Str L = Case.substr(0, A), Ord = Case.substr(A + 1, B - A - 1), Run = Case.substr(B + 1);
  std::unique_ptr<Srv> S(start(X, true));
  S->AutoDrain = false;
  for (size_t I = 1; I < L.size(); ++I) S->notify("workspace/didChangeConfiguration", Object{{"settings", nullptr}});
  S->look();
  if (S->Asked.size() != L.size()) return X.fail("asked", Case + ": the configuration was asked for " + std::to_string(S->Asked.size()) + " times");
  std::map<size_t, size_t> Task; // posted task -> request
  std::vector<size_t> Tasks;
  std::set<size_t> Done;
  int Last = -1;
  for (char O : Ord) {
    size_t I = O - '0', N = mcpool::Queue.size();
    if (L[I] == 'e') S->answer(I, Object{{"code", -1}, {"message", "no"}}, true);
    else if (L[I] == 'n') S->answer(I, Array{});
    else S->answer(I, Array{parse(Hist[L[I] - '0'])});
    X.add(CConf);
  }
  // Run what was posted, in every order.
  std::vector<mcpool::Task> T;
  while (!mcpool::Queue.empty()) T.push_back(std::move(mcpool::Queue.front())), mcpool::Queue.pop_front();
  for (char O : Run)
    if (size_t(O - '0') < T.size()) S->guard([&] { T[O - '0'](); });
  S->AutoDrain = true;
  S->drain(), S->collect(), S->look();
  std::optional<Conf> E;
  for (size_t I = 0; I < L.size(); ++I)
    if (isdigit(L[I]))
      if (auto M = meaning(parse(Hist[L[I] - '0']))) E = M;
  compare(X, Case + ": ", *S, E ? *E : Defaults, true, true, true);
}
/// COMMAND LINE|ANSWER: the one given on the command line counts until there is
/// an answer.
void evalCli(Ctx &X, const Str &Case) {
  size_t B = Case.find('|');
  Str Cli = Case.substr(0, B), Ans = Case.substr(B + 1);
  auto &Opts = llvm::cl::getRegisteredOptions();
  auto It = Opts.find("config");
  if (It == Opts.end()) return X.fail("option", "there is no option --config");
  auto *Opt = static_cast<llvm::cl::opt<std::string> *>(It->second);
  Opt->setValue(Cli);
  std::unique_ptr<Srv> S(start(X, true));
  Opt->setValue("");
  Conf E = Defaults;
  if (Cli != "") {
    auto M = meaning(parse(Cli));
    if (!M) return X.fail("case", "malformed command line");
    E = *M;
  }
  compare(X, "--config=" + Cli + ": ", *S, E, true, true, Cli != "");
  if (Ans == "") return;
  S->answer(0, Array{parse(Ans)});
  X.add(CConf);
  if (auto M = meaning(parse(Ans))) E = *M;
  compare(X, "--config=" + Cli + " and then " + Ans + ": ", *S, E, true, true, true);
}
} // namespace

int main(int argc, char **argv) {
  Check C(argv[1], argc - 1, argv + 1);
  Quick = C.quick();
  C.BudgetS = Quick ? 400 : 2000;
  C.Counters = {"sessions", "configurations", "valid_configurations", "publications_compared", "formattings"};
  C.Rule = "The real Controller is given every stated configuration document, after another one of which nothing may remain, and every stated history of documents, answered and handled in every order; published diagnostics, the formatting command and the expressions evaluated by the workers are compared with the meaning of the last valid document.";
  C.Assumptions = {"a malformed document changes nothing at all", "a client without any setting answers null", "settings that are null inside of a document are malformed", "the expression of options other than nixos has no default"};
  Defaults.Format = {"nixfmt-of-the-system"};
  C.WorkerInit = [] {
    setenv("PATH", "/usr/bin:/bin", 1);
    cs::TheWorker = [](const Value &M) -> std::vector<Value> {
      static Str Expr = "?";
      auto *O = M.getAsObject();
      if (!O || !O->get("id")) return {};
      Str Me = O->getString("method").value_or("").str();
      Value R = nullptr;
      if (Me == "attrset/evalExpr") Expr = O->getString("params").value_or("??").str();
      if (Me == "attrset/attrpathInfo") R = Object{{"Meta", Object{{"Type", 1}, {"Location", nullptr}}}, {"PackageDesc", Object{{"Name", nullptr}, {"PName", nullptr}, {"Version", nullptr}, {"Description", "<" + Expr + ">"}, {"LongDescription", nullptr}, {"Position", nullptr}, {"Homepage", nullptr}}}, {"ValueDesc", nullptr}};
      if (Me == "attrset/optionComplete") R = Array{Object{{"Name", "<" + Expr + ">"}, {"Description", nullptr}}};
      return {Object{{"jsonrpc", "2.0"}, {"id", *O->get("id")}, {"result", std::move(R)}}};
    };
    Ctx X;
    std::unique_ptr<Srv> S(start(X, false));
    Conf D = observe(*S);
    Defaults.Nixpkgs = D.Nixpkgs, Defaults.Options = D.Options;
  };
  auto docs = [](const std::vector<Str> &D, const std::vector<Str> &N, const std::vector<Str> &O, const std::vector<Str> &F) {
    std::vector<Str> R;
    for (auto &A : D)
      for (auto &B : N)
        for (auto &E : O)
          for (auto &G : F) {
            Str T;
            for (auto &Z : {A, B, E, G})
              if (Z != "") T += (T == "" ? "" : ",") + Z;
            R.push_back("[{" + T + "}]");
          }
    return R;
  };
  std::vector<Str> D = {"", R"("diagnostic":{})", R"("diagnostic":{"suppress":["sema-extra-with"]})", R"("diagnostic":{"suppress":null})", R"("diagnostic":{"suppress":"x"})", R"("diagnostic":{"suppress":["x",1]})", R"("diagnostic":null)", R"("diagnostic":[])"};
  std::vector<Str> N = {"", R"("nixpkgs":{})", R"("nixpkgs":{"expr":"NEW"})", R"("nixpkgs":{"expr":""})", R"("nixpkgs":{"expr":3})", R"("nixpkgs":null)", R"("nixpkgs":"NEW")", R"("nixpkgs":{"expr":"NEW","more":1})"};
  std::vector<Str> O = {"", R"("options":{})", R"("options":{"a":{"expr":"A"}})", R"("options":{"old":{"expr":"NEW"},"b":{"expr":"B"}})", R"("options":{"nixos":{"expr":"NX"}})", R"("options":{"nixos":{}})", R"("options":{"nixos":{"expr":""},"a":{"expr":"A"}})", R"("options":{"a":null})", R"("options":{"a":{"expr":[]}})", R"("options":[])", R"("options":{"a":"A"})", R"("options":null)"};
  std::vector<Str> F = {"", R"("formatting":{})", R"("formatting":{"command":["echo","A"]})", R"("formatting":"echo")", R"("formatting":{"command":[]})", R"("formatting":{"command":"echo"})", R"("formatting":{"command":[1]})", R"("formatting":null)", R"("formatting":{"command":null})"};
  if (Quick) {
    C.Spaces.push_back(listSpace("documents", "diagnostics and formatting with two values of the others, and nixpkgs and options with two values of the others", [&] {
                                   auto R = docs(D, {N[0], N[2]}, {O[0], O[2]}, F), Q = docs({D[0], D[2]}, N, O, {F[0], F[2]});
                                   R.insert(R.end(), Q.begin(), Q.end());
                                   return R;
                                 }()));
  } else
    C.Spaces.push_back(listSpace("documents", "all combinations of the values of the four settings", docs(D, N, O, F)));
  C.Spaces.push_back(listSpace("answers", "answers that are no configuration at all", {"[null]", "[]", "null", "[[]]", "[7]", "[\"\"]", "{}", "7", "[true]", "[{}]", "[{},{\"nixpkgs\":{\"expr\":\"SECOND\"}}]", "[{\"nixpkgs\":{\"expr\":\"FIRST\"}},null]", "[{\"other\":1}]", "[{\"Diagnostic\":{\"suppress\":[\"sema-extra-with\"]}}]"}));
  std::vector<Str> Sup;
  auto sup = [&](const std::vector<Str> &L) {
    Array A;
    for (auto &S : L) A.push_back(S);
    Sup.push_back(cs::show(Array{Object{{"diagnostic", Object{{"suppress", std::move(A)}}}}}));
  };
  sup({}), sup(kinds()), sup({"", "x", "sema-"}), sup({"note-prev"}), sup({"SEMA-EXTRA-WITH"}), sup({" sema-extra-with"});
  for (size_t I = 0; I < kinds().size(); ++I) {
    auto &K = kinds()[I];
    sup({K}), sup({K, "x", K}), sup({K.substr(0, K.size() - 1)}), sup({K + "s"});
    std::vector<Str> Not;
    for (auto &J : kinds())
      if (J != K) Not.push_back(J);
    sup(Not);
    for (size_t J = I + 1; J < kinds().size(); ++J)
      if (!Quick || J - I < 6) sup({kinds()[J], K});
  }
  C.Spaces.push_back(listSpace("suppress", "every kind of diagnostic suppressed alone, with others, and but one", Sup));
  std::vector<Str> H;
  auto hist = [&](const Str &Al, unsigned Len) {
    std::vector<Str> V;
    for (char Z : Al) V.push_back(Str(1, Z));
    Space Sp = seqSpace("", "", V, Len, Len);
    Str P = Str("0123").substr(0, Len);
    for (uint64_t I = 0; I < Sp.Size; ++I) {
      Str Ord = P;
      do {
        Str Run = P;
        do H.push_back(Sp.At(I) + "|" + Ord + "|" + Run);
        while (std::next_permutation(Run.begin(), Run.end()));
      } while (std::next_permutation(Ord.begin(), Ord.end()));
    }
  };
  hist("0123456en", 1), hist("0123456en", 2), hist(Quick ? "2356" : "023456e", 3);
  C.Spaces.push_back(listSpace("histories", "documents asked for up to three times, answered in every order and handled in every order", H));
  std::vector<Str> Cli;
  for (auto &A : Hist) {
    if (!meaning(parse(A)) || A == "null") continue;
    Cli.push_back(A + "|");
    for (auto &B : Hist) Cli.push_back(A + "|" + B);
  }
  for (auto &B : Hist) Cli.push_back("|" + B);
  C.Spaces.push_back(listSpace("command-line", "configurations of the command line, alone and followed by an answer of the client", Cli));
  C.Eval = [](Ctx &X, const Str &Sp, const Str &T) {
    static Str Last;
    if (Last != Sp) delete Shared, Shared = nullptr, Last = Sp;
    if (Sp == "documents" || Sp == "answers") evalDoc(X, T, false);
    if (Sp == "suppress") evalDoc(X, T, true);
    if (Sp == "command-line") evalCli(X, T);
    if (Sp == "histories") evalHist(X, T);
  };
  return C.run();
}
