// P09 name resolution, P10 unused warnings, P11 node queries.
#include "checks/nixspaces.h"
#include "checks/nixfutil.h"
#include "ref/resolve.h"

#include <nixf/Sema/ParentMap.h>
#include <nixf/Sema/PrimOpInfo.h>
#include <nixf/Sema/VariableLookup.h>

using namespace mc;

namespace {
using R2 = std::pair<int, int>;
R2 rg(const nixf::Node &N) { return {N.lCur().offset(), N.rCur().offset()}; }
R2 rg(const nixf::LexerCursorRange &N) { return {N.lCur().offset(), N.rCur().offset()}; }
Str S(R2 R) { return "[" + std::to_string(R.first) + "," + std::to_string(R.second) + "]"; }
using DK = nixf::Diagnostic;

bool builtin(const Str &N) {
  static const std::set<Str> C{"true", "false", "null", "__currentTime", "__currentSystem", "__nixVersion", "__storeDir", "__langVersion", "__importNative", "__traceVerbose", "__nixPath", "derivation", "builtins", "__curPos"};
  if (C.count(N)) return true;
  auto It = nixf::PrimOpsInfo.find(N);
  return It != nixf::PrimOpsInfo.end() && !It->second.Internal;
}
bool prefixed(const Str &N) { return builtin("__" + N) && nixf::PrimOpsInfo.count("__" + N); }

void all(const nixf::Node *N, std::vector<const nixf::Node *> &V) {
  V.push_back(N);
  for (auto *C : N->children())
    if (C) all(C, V);
}

struct Both {
  ref::Parsed P;
  ref::Scoping Sc;
  std::vector<DK> Ds;
  std::shared_ptr<nixf::Node> AST;
  std::unique_ptr<nixf::VariableLookupAnalysis> VLA;
  std::vector<const nixf::Node *> Nodes;
  size_t ParseDiags = 0;
  /// false: the text is not a valid program, or left out
  bool run(Ctx &X, const Str &T) {
    P = ref::parse(T);
    if (!P.ok()) {
      X.add(P.unspec ? 1 : 2);
      return false;
    }
    AST = nixf::parse(T, Ds);
    if (!AST || nu::anyError(Ds)) {
      X.add(1); // P03's business
      return false;
    }
    ParseDiags = Ds.size();
    Sc.builtin = builtin;
    Sc.run(P.root);
    VLA = std::make_unique<nixf::VariableLookupAnalysis>(Ds);
    VLA->runOnAST(*AST);
    all(AST.get(), Nodes);
    X.add(0);
    return true;
  }
};

void p09(Ctx &X, const Str &T) {
  Both B;
  if (!B.run(X, T)) return;
  std::map<R2, const nixf::Definition *> Defs; // by position of the binding
  std::map<R2, const nixf::ExprVar *> Vars;
  for (auto *N : B.Nodes) {
    if (auto *D = B.VLA->toDef(*N)) Defs[rg(*N)] = D;
    if (N->kind() == nixf::Node::NK_ExprVar) Vars[rg(*N)] = static_cast<const nixf::ExprVar *>(N);
  }
  auto At = [&](const ref::Scoping::Bind &D) -> R2 {
    if (D.k == ref::Scoping::BWith) return {D.at->b, D.at->b + 4};
    return {D.at->b, D.at->e};
  };
  for (auto &D : B.Sc.binds) {
    X.add(3);
    auto It = Defs.find(At(D));
    if (It == Defs.end()) {
      X.fail("no-definition", "binding " + D.name + S(At(D)) + " has no definition");
      continue;
    }
    std::vector<R2> U, V = D.uses;
    for (auto *Y : It->second->uses()) U.push_back(rg(*Y));
    std::sort(U.begin(), U.end());
    std::sort(V.begin(), V.end());
    if (U != V) {
      Str A, C;
      for (auto &Y : U) A += S(Y);
      for (auto &Y : V) C += S(Y);
      X.fail("uses", "binding " + D.name + S(At(D)) + " has uses " + A + ", expected " + C);
    }
    using DS = nixf::Definition::DefinitionSource;
    static const DS Src[] = {DS::DS_Let, DS::DS_Rec, DS::DS_LambdaArg, DS::DS_LambdaNoArg_Formal, DS::DS_LambdaWithArg_Formal, DS::DS_LambdaWithArg_Arg, DS::DS_With};
    if (It->second->source() != Src[D.k]) X.fail("source", "binding " + D.name + S(At(D)) + " has the wrong kind");
    const nixf::Definition *Def = It->second;
    if (rg(*Def->syntax()) != At(D)) X.fail("def-syntax", "definition of " + S(At(D)) + " is at " + S(rg(*Def->syntax())));
    Defs.erase(It);
    // The further names of the same attribute (a.b = 1; a.c = 2) may lead to the same definition, and to nothing else.
    for (auto *M : D.more) {
      auto Jt = Defs.find({M->b, M->e});
      if (Jt == Defs.end()) continue;
      if (Jt->second != Def) X.fail("further-name", "the name at " + S(R2{M->b, M->e}) + " belongs to " + D.name + S(At(D)));
      Defs.erase(Jt);
    }
  }
  for (auto &[R, D] : Defs) X.fail("extra-definition", "definition at " + S(R) + " binds nothing");
  std::multiset<R2> Undef, Got;
  size_t NV = 0;
  for (auto &O : B.Sc.occs) {
    X.add(4);
    if (O.k == ref::Scoping::Undefined) Undef.insert({O.b, O.e});
    if (O.inherited) continue;
    auto It = Vars.find({O.b, O.e});
    if (It == Vars.end()) {
      X.fail("no-variable", "no variable node for the occurrence at " + S({O.b, O.e}));
      continue;
    }
    ++NV;
    auto R = B.VLA->query(*It->second);
    using LK = nixf::VariableLookupAnalysis::LookupResultKind;
    Str W = " for " + O.name + S({O.b, O.e});
    switch (O.k) {
    case ref::Scoping::Undefined:
      if (R.Kind != LK::Undefined) X.fail("not-undefined", "a definition is reported" + W);
      break;
    case ref::Scoping::Builtin:
      if (R.Kind != LK::Defined || !R.Def || !R.Def->isBuiltin() || R.Def->syntax()) X.fail("not-builtin", "the builtin is not reported" + W);
      break;
    case ref::Scoping::Defined:
      if (R.Kind != LK::Defined || !R.Def || !R.Def->syntax()) X.fail("not-defined", "no definition is reported" + W);
      else if (rg(*R.Def->syntax()) != At(B.Sc.binds[O.bind])) X.fail("wrong-definition", "the definition at " + S(rg(*R.Def->syntax())) + " is reported" + W + ", expected " + S(At(B.Sc.binds[O.bind])));
      break;
    case ref::Scoping::FromWith: {
      if (R.Kind != LK::FromWith) {
        X.fail("not-with", "no with is reported" + W);
        break;
      }
      std::vector<R2> U, V;
      for (auto *Y : B.VLA->getWithScopes(*It->second)) U.push_back(rg(*Y));
      for (int I : O.withs) V.push_back({B.Sc.binds[I].at->b, B.Sc.binds[I].at->e});
      if (U != V) X.fail("with-scopes", "wrong list of withs" + W);
      if (!R.Def || std::none_of(O.withs.begin(), O.withs.end(), [&](int I) { return At(B.Sc.binds[I]) == rg(*R.Def->syntax()); })) X.fail("with-definition", "the reported with does not enclose" + W);
      break;
    }
    }
  }
  if (NV != Vars.size()) X.fail("extra-variable", "a variable node is at no occurrence");
  for (auto &D : B.Ds)
    if (D.kind() == DK::DK_UndefinedVariable || D.kind() == DK::DK_PrimOpNeedsPrefix) {
      Got.insert(rg(D.range()));
      Str N = T.substr(rg(D.range()).first, rg(D.range()).second - rg(D.range()).first);
      if ((D.kind() == DK::DK_PrimOpNeedsPrefix) != prefixed(N)) X.fail("undefined-kind", Str("`") + N + "` is reported as " + D.sname());
    }
  if (Got != Undef) {
    Str A, C;
    for (auto &Y : Got) A += S(Y);
    for (auto &Y : Undef) C += S(Y);
    X.fail("undefined", "reported as undefined: " + A + ", expected: " + C);
  }
  X.outcome(std::to_string(B.Sc.binds.size()) + "/" + std::to_string(B.Sc.occs.size()) + "/" + std::to_string(Undef.size()));
}

void p10(Ctx &X, const Str &T) {
  Both B;
  if (!B.run(X, T)) return;
  std::multiset<Str> Want, Got;
  auto Add = [&](std::multiset<Str> &M, DK::DiagnosticKind K, R2 R) { M.insert(Str(DK::sname(K)) + S(R)); };
  for (auto &D : B.Sc.binds) {
    X.add(3);
    if (!D.uses.empty()) continue;
    R2 At{D.at->b, D.at->e};
    switch (D.k) {
    case ref::Scoping::BLet: Add(Want, DK::DK_UnusedDefLet, At); break;
    case ref::Scoping::BFormal: Add(Want, DK::DK_UnusedDefLambdaNoArg_Formal, At); break;
    case ref::Scoping::BFormalWithArg: Add(Want, DK::DK_UnusedDefLambdaWithArg_Formal, At); break;
    case ref::Scoping::BArgWithFormals: Add(Want, DK::DK_UnusedDefLambdaWithArg_Arg, At); break;
    case ref::Scoping::BWith: Add(Want, DK::DK_ExtraWith, {At.first, At.first + 4}); break;
    default: break;
    }
  }
  for (auto &R : B.Sc.recs) {
    X.add(4);
    if (!R.used) Add(Want, DK::DK_ExtraRecursive, {R.at->b, R.at->b + 3});
  }
  for (auto &D : B.Ds)
    switch (D.kind()) {
    case DK::DK_UnusedDefLet:
    case DK::DK_UnusedDefLambdaNoArg_Formal:
    case DK::DK_UnusedDefLambdaWithArg_Formal:
    case DK::DK_UnusedDefLambdaWithArg_Arg:
    case DK::DK_ExtraWith:
    case DK::DK_ExtraRecursive:
      Add(Got, D.kind(), rg(D.range()));
      break;
    default:
      break;
    }
  for (auto &W : Want)
    if (Got.count(W) != Want.count(W)) X.fail("missing " + W.substr(0, W.find('[')), W + " is reported " + std::to_string(Got.count(W)) + " times");
  for (auto &G : Got)
    if (!Want.count(G)) X.fail("spurious " + G.substr(0, G.find('[')), G + " is reported");
  X.outcome(std::to_string(Want.size()));
}

void p11(Ctx &X, const Str &T) {
  std::vector<DK> Ds;
  auto AST = nixf::parse(T, Ds);
  if (!AST) {
    X.add(2);
    return;
  }
  X.add(0);
  nixf::ParentMapAnalysis PM;
  PM.runOnAST(*AST);
  std::map<const nixf::Node *, const nixf::Node *> Up;
  std::vector<const nixf::Node *> V;
  std::function<void(const nixf::Node *)> Walk = [&](const nixf::Node *N) {
    V.push_back(N);
    for (auto *C : N->children())
      if (C) {
        // The keyword of a let is also listed by its attribute set.
        auto P = rg(*N), Q = rg(*C);
        if (Q.first < P.first || Q.second > P.second) continue;
        if (Up.count(C)) X.fail("shared", "a node has two parents");
        Up[C] = N;
        Walk(C);
      }
  };
  Up[AST.get()] = AST.get();
  Walk(AST.get());
  auto Nm = [&](const nixf::Node *N) { return N ? Str(nixf::Node::name(N->kind())) + S(rg(*N)) : Str("null"); };
  for (auto *N : V) {
    X.add(3);
    if (PM.query(*N) != Up[N]) X.fail("parent", "parent of " + Nm(N) + " is reported as " + Nm(PM.query(*N)) + ", expected " + Nm(Up[N]));
    if (PM.isRoot(*N) != (N == AST.get())) X.fail("root", "isRoot is wrong on " + Nm(N));
    auto Find = [&](auto Pred) -> const nixf::Node * {
      for (auto *Y = N;; Y = Up[Y]) {
        if (Pred(Y)) return Y;
        if (Y == AST.get()) return nullptr;
      }
    };
    auto *E = Find([](auto *Y) { return nixf::Expr::isExpr(Y->kind()); });
    if (PM.upExpr(*N) != E) X.fail("upExpr", "upExpr of " + Nm(N) + " is " + Nm(PM.upExpr(*N)) + ", expected " + Nm(E));
    for (int K = 0; K < 64; ++K) {
      auto Kd = (nixf::Node::NodeKind)K;
      auto *W = Find([&](auto *Y) { return Y->kind() == Kd; });
      if (PM.upTo(*N, Kd) != W) X.fail("upTo", "upTo of " + Nm(N) + " is " + Nm(PM.upTo(*N, Kd)) + ", expected " + Nm(W));
    }
  }
  if (PM.query(nixf::Identifier(AST->range(), "zz")) != nullptr) X.fail("foreign", "a foreign node has a parent");
  // positions of all offsets
  std::vector<nixf::Position> Pos;
  {
    int L = 0, Co = 0;
    for (size_t I = 0; I <= T.size(); ++I) {
      Pos.push_back({L, Co});
      if (I < T.size() && T[I] == '\n') ++L, Co = 0;
      else ++Co;
    }
    Pos.push_back({L + 1, 0});
  }
  auto In = [](const nixf::Node *N, nixf::PositionRange R) {
    auto P = N->positionRange();
    auto Le = [](nixf::Position A, nixf::Position B) { return A.line() < B.line() || (A.line() == B.line() && A.column() <= B.column()); };
    return Le(P.begin(), R.begin()) && Le(R.end(), P.end());
  };
  for (size_t I = 0; I < Pos.size(); ++I)
    for (size_t J = I; J < Pos.size(); ++J) {
      X.add(4);
      nixf::PositionRange R{Pos[I], Pos[J]};
      auto *G = AST->descend(R);
      Str W = " for " + S({(int)I, (int)J});
      bool Any = In(AST.get(), R);
      if (!G) {
        if (Any) X.fail("lost", "descend finds nothing" + W);
        continue;
      }
      if (!Any) X.fail("outside", "descend finds " + Nm(G) + W);
      if (!Up.count(G)) X.fail("foreign", "descend returns a node of no tree" + W);
      if (!In(G, R)) X.fail("not-covering", "descend returns " + Nm(G) + W);
      for (auto *C : G->children())
        if (C && In(C, R)) X.fail("not-smallest", "descend returns " + Nm(G) + W + ", its child " + Nm(C) + " covers the range");
    }
  X.outcome(std::to_string(V.size()));
}
} // namespace

int main(int argc, char **argv) {
  Str Id = argv[1];
  Check C(Id, argc - 1, argv + 1);
  bool Q = C.quick();
  C.BudgetS = Q ? 300 : 3000;
  C.HangS = 20;
  C.Assumptions = {"the reference resolver renders Nix's static scoping (bindVars); the table of builtins is src/stubs/primops.cpp, since nixd generates its own from the Nix libraries"};
  sp::Terms ST{{"a", "b"}, sp::scopeForms()};
  std::vector<Str> BF = {"let map = @; in @", "rec { builtins = @; c = @; }", "(true: @)", "({ length ? @ }: @)", "with @; @", "let inherit (builtins) map length; in @", "let inherit (@) __add; in @", "builtins.map (@)", "[ (@) (@) ]"};
  std::vector<Str> BL = {"map", "length", "builtins", "true", "__add", "__nope", "currentSystem", "derivation", "x"};
  auto add = [&](Space S) { C.Spaces.push_back(std::move(S)); };
  auto forms = [&](int D) {
    sp::Forms F{sp::exprForms()};
    std::vector<Str> R;
    F.gen(D, R);
    return R;
  };
  if (Id == "P09" || Id == "P10") {
    C.Counters = {"programs", "left_out", "rejected_by_reference", "bindings", Id == "P09" ? "occurrences" : "recursive_sets"};
    C.Rule = "Every program of each space is analysed by the real variable lookup and by the reference resolver (src/ref/resolve.h); bindings, uses, lookup results and diagnostics are compared.";
    add(sp::termSpace("terms1", "all programs of nesting depth 1 over 30 scope forms and the names a, b", ST, 1));
    add(sp::chainSpace("chains2", "all chains of 2 scope contexts", sp::scopeForms(), {"a", "b"}, {"a", "b", "c"}, 2));
    add(sp::chainSpace("chains3", "all chains of 3 scope contexts", sp::scopeForms(), {"b"}, {"a", "b"}, 3));
    add(sp::termSpace("builtins", "all programs of nesting depth 1 over forms that shadow builtins", {BL, BF}, 1));
    add(sp::chainSpace("builtins3", "all chains of 3 contexts that shadow builtins", BF, {"map", "x"}, BL, 3));
    add(listSpace("forms2", "grammar forms nested twice", forms(2)));
    {
      auto Items = sp::bindItems();
      std::vector<Str> R;
      for (auto *W : {"{ %s }", "rec { %s }", "let %s in a", "let %s b = a; in b.c", "let { %s body = b; }", "a: b: rec { x = b; %s }"})
        for (auto &I : Items)
          for (auto &J : Items) {
            Str S = W;
            S.replace(S.find("%s"), 2, I + " " + J);
            R.push_back(S);
          }
      add(listSpace("bindings", "all pairs of bindings in sets and lets", R));
      if (!Q) {
        R.clear();
        for (auto *W : {"{ %s }", "rec { %s }", "let %s in a"})
          for (auto &I : Items)
            for (auto &J : Items)
              for (auto &K : Items) {
                Str S = W;
                S.replace(S.find("%s"), 2, I + " " + J + " " + K);
                R.push_back(S);
              }
        add(listSpace("bindings3", "all triples of bindings in sets and lets", R));
      }
    }
    { // all products of a smaller set of forms
      std::vector<Str> F = {"let a = @; in @", "rec { a = @; b = @; }", "with @; @", "(a: @)", "({ a ? @, b }: @)", "{ inherit (@) a; inherit b; }", "let inherit (@) a; inherit b; in @"};
      add(sp::termSpace("terms2", "all programs of nesting depth 2 over 7 scope forms", {{"a", "b"}, F}, 2));
    }
    if (!Q) {
      add(sp::chainSpace("chains4", "all chains of 4 scope contexts", sp::scopeForms(), {"b"}, {"a"}, 4));
      add(sp::termSpace("terms2x", "all programs of nesting depth 2 over 30 scope forms, one leaf", {{"a"}, sp::scopeForms()}, 2));
    }
    C.Eval = [Id](Ctx &X, const Str &, const Str &T) { Id == "P09" ? p09(X, T) : p10(X, T); };
  } else {
    C.Counters = {"trees", "-", "no_tree", "nodes", "ranges"};
    C.Rule = "For every text of each space: every node's parent, enclosing expression and enclosing node of every kind, and descend() for every range of the text, against a walk over children().";
    auto FT = sp::tokensFull();
    add(seqSpace("tokens", "all sequences of tokens", FT, 0, Q ? 2 : 3, " "));
    {
      std::vector<Str> R;
      for (auto &[A, B] : sp::contexts())
        for (auto &T : FT) {
          R.push_back(A + T + B);
          for (auto &U : FT) {
            R.push_back(A + T + " " + U + B);
            if (!Q) R.push_back(A + T + U + B);
          }
        }
      add(listSpace("contexts", "pairs of tokens in each construct", R));
    }
    add(listSpace("forms1", "grammar forms", forms(1)));
    add(listSpace("forms2", "grammar forms nested twice", forms(2)));
    if (!Q) add(listSpace("forms3", "grammar forms nested three times", forms(3)));
    C.Eval = [](Ctx &X, const Str &, const Str &T) { p11(X, T); };
  }
  return C.run();
}
