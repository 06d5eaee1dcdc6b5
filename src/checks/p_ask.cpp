// P21: every request is answered exactly once. P35: what workers answer.
#include "checks/concutil.h"
#include "checks/nixspaces.h"
#include "checks/scopeutil.h"
#include "ref/nixref.h"
#include "ref/resolve.h"

namespace {
/// Formats what is logged, as the real logger does.
struct Formatting : lspserver::Logger {
  void log(Level, const char *, const llvm::formatv_object_base &M) override {
    Str S = M.str();
    if (getenv("MC_LOG")) fprintf(stderr, "log: %s\n", S.c_str());
  }
};
void formatting() {
  static Formatting F;
  static lspserver::LoggingSession S(F);
}
int64_t ask(Sys &S, const Str &Method, Object P) {
  S.Reqs.push_back({S.Next, Method, {"-"}, 0});
  S.dispatch(Object{{"id", S.Next}, {"method", Method}, {"params", std::move(P)}});
  return S.Next++;
}
struct Line {
  int Begin, Len;
};
std::vector<Line> lines(const Str &T) {
  std::vector<Line> R;
  size_t B = 0;
  for (size_t I = 0; I <= T.size(); ++I)
    if (I == T.size() || T[I] == '\n') R.push_back({(int)B, (int)(I - B)}), B = I + 1;
  return R;
}
void common(Ctx &X, const Str &Head, Sys &S, const sched::Outcome &O) {
  auto Fail = [&](const char *K, const Str &W) { X.fail(K, Head + W); };
  if (!O.Thrown.empty()) return Fail("exception", "an exception ends the server: " + O.Thrown);
  if (O.Deadlock || O.Limit) return Fail("deadlock", O.Note + (O.Limit ? " (goes on forever)" : ""));
  if (!S.Broken.empty()) return Fail("output", S.Broken);
  std::map<int64_t, int> N;
  for (auto &M : S.Out) {
    auto *P = M.getAsObject();
    if (!P->get("method"))
      if (auto Id = P->getInteger("id")) ++N[*Id];
  }
  for (auto &Q : S.Reqs) {
    X.add(CReq);
    if (N[Q.Id] != 1) Fail("answers", "request " + Q.Name + " (" + std::to_string(Q.Id) + ") has " + std::to_string(N[Q.Id]) + " answers");
    N.erase(Q.Id);
  }
  for (auto &[I, K] : N)
    if (K) Fail("answers", "nothing was asked with number " + std::to_string(I));
}

// ---- P21: all requests at all positions -------------------------------------
const Str Full = "I W K2 W "; ///< nixpkgs, nixos and another options worker
void everything(Sys &S, const Str &U, const std::vector<std::pair<int64_t, int64_t>> &Pos) {
  auto doc = [&] { return tdoc(U); };
  for (auto *M : {"textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/semanticTokens/full", "textDocument/documentLink"}) ask(S, M, doc());
  for (auto &[L, C] : Pos) {
    for (auto *M : {"textDocument/hover", "textDocument/completion", "textDocument/definition", "textDocument/references", "textDocument/documentHighlight", "textDocument/prepareRename", "textDocument/rename"}) {
      Object O = doc();
      O["position"] = cs::pos(L, C);
      if (Str(M) == "textDocument/rename") O["newName"] = "nn";
      if (Str(M) == "textDocument/references") O["context"] = Object{{"includeDeclaration", true}};
      ask(S, M, std::move(O));
    }
    Object O = doc();
    O["range"] = cs::range(L, C, L, C);
    O["context"] = Object{{"diagnostics", Array{}}};
    ask(S, "textDocument/codeAction", std::move(O));
  }
  // ranges: a point, up to the end, everything, backwards
  auto &A = Pos.front();
  for (auto &[L, C] : Pos) {
    for (bool Back : {false, true}) {
      Object O = doc();
      O["range"] = Back ? cs::range(L, C, A.first, A.second) : cs::range(A.first, A.second, L, C);
      ask(S, "textDocument/inlayHint", O);
      O["context"] = Object{{"diagnostics", Array{}}};
      ask(S, "textDocument/codeAction", std::move(O));
    }
  }
}
void sweep(Ctx &X, const Str &T, const Str &U) {
  X.add(CScen);
  runs(&X, Full, [&](Sys &S) {
    S.notify("textDocument/didOpen", Object{{"textDocument", Object{{"uri", "file:///w/a.nix"}, {"languageId", "nix"}, {"version", 1}, {"text", T}}}});
    std::vector<std::pair<int64_t, int64_t>> Pos;
    auto L = lines(T);
    for (size_t I = 0; I < L.size(); ++I)
      for (int C = 0; C <= L[I].Len + 1; ++C) Pos.push_back({I, C});
    Pos.push_back({L.size(), 0}), Pos.push_back({L.size(), 3});
    Pos.push_back({0, 2147483647}), Pos.push_back({2147483647, 2147483647});
    Pos.push_back({-1, 0}), Pos.push_back({0, -1});
    everything(S, U, Pos);
  }, 0, true, [&](Sys &S, const sched::Outcome &O) { common(X, "", S, O); });
}

// ---- P35: questions and answers ---------------------------------------------
using Path = std::vector<Str>;
Str dots(const Path &P) {
  Str R;
  for (size_t I = 0; I < P.size(); ++I) R += (I ? "." : "") + P[I];
  return R;
}
struct Place {
  enum Kind { Var, SelectName, Option, OtherName } K;
  int b, e;
  Str Name;
  std::vector<Path> Q;   ///< what hover and definition may ask about
  std::vector<Path> At;  ///< what completion may be about, last one is the prefix
  bool None = true;      ///< or about nothing
  const ref::Scoping::Occ *O = nullptr;
};
struct Program {
  ref::Parsed P;
  ref::Scoping Sc;
  std::map<std::pair<int, int>, const ref::Scoping::Occ *> Occ;
  std::vector<Place> L;
  int Inh = 0; ///< depth of inherits around
  /// Paths in nixpkgs that the variable may denote. Which of the enclosing
  /// withs has it is not known. None: or it is something else.
  std::vector<Path> var(const ref::N *V, bool &None) {
    auto It = Occ.find({V->b, V->e});
    None = true;
    if (It == Occ.end()) return {};
    auto *O = It->second;
    if (O->k != ref::Scoping::FromWith) {
      None = V->s != "pkgs" && V->s != "lib";
      if (V->s == "pkgs") return {{}};
      if (V->s == "lib") return {{"lib"}};
      return {};
    }
    std::vector<Path> R;
    bool Any = false;
    for (int W : O->withs)
      for (auto B : selector(Sc.binds[W].at->c[0], None)) {
        Any |= None;
        B.push_back(V->s);
        R.push_back(B);
      }
    for (int W : O->withs) selector(Sc.binds[W].at->c[0], None), Any |= None;
    None = Any;
    return R;
  }
  std::vector<Path> selector(const ref::N *E, bool &None, size_t Upto = ~0u) {
    None = true;
    if (E->k == ref::Var) return var(E, None);
    if (E->k != ref::Select || E->c[0]->k != ref::Var) return {};
    auto R = var(E->c[0], None);
    auto &Ns = E->c[1]->c;
    for (size_t I = 0; I < Ns.size() && I <= Upto; ++I) {
      if (Ns[I]->k != ref::NameId) return None = true, std::vector<Path>();
      for (auto &B : R) B.push_back(Ns[I]->s);
    }
    return R;
  }
  /// Up: the option path of the set N is in, if it is in none but sets.
  void walk(const ref::N *N, std::optional<Path> Here) {
    if (!N) return;
    if (N->k == ref::Var) {
      Place P{Place::Var, N->b, N->e, N->s};
      P.Q = P.At = var(N, P.None);
      if (auto It = Occ.find({N->b, N->e}); It != Occ.end()) P.O = It->second;
      L.push_back(P);
      return;
    }
    if (N->k == ref::Select) {
      walk(N->c[0], Path{});
      for (size_t I = 0; I < N->c[1]->c.size(); ++I) {
        auto *M = N->c[1]->c[I];
        if (M->k == ref::NameId) {
          Place P{Place::SelectName, M->b, M->e, M->s};
          P.Q = selector(N, P.None);
          P.At = selector(N, P.None, I);
          P.None |= P.Q.empty();
          L.push_back(P);
        }
        else walk(M, Path{});
      }
      walk(N->c[2], Path{});
      return;
    }
    if (N->k == ref::Attrs) {
      for (auto *B : N->c) {
        if (!B) continue;
        if (B->k == ref::Inherit) {
          walkInherit(B);
          continue;
        }
        std::optional<Path> P = Here;
        for (auto *M : B->c[0]->c) {
          if (M->k != ref::NameId) {
            P.reset();
            walk(M, Path{});
            continue;
          }
          if (P && !Inh) {
            P->push_back(M->s);
            Path Q = *P;
            if (Q.size() > 1 && Q[0] == "config") Q.erase(Q.begin());
            L.push_back({Place::Option, M->b, M->e, M->s, {Q}, {Q}, false});
          } else L.push_back({Place::OtherName, M->b, M->e, M->s});
        }
        auto *V = B->c[1];
        if (V && V->k == ref::Attrs) walk(V, P);
        else walk(V, Path{});
      }
      return;
    }
    if (N->k == ref::Inherit) return walkInherit(N);
    for (auto *C : N->c) walk(C, Path{});
  }
  void walkInherit(const ref::N *B) {
    for (auto *C : B->c) {
      if (!C) continue;
      if (C->k == ref::NameId) {
        Place P{Place::OtherName, C->b, C->e, C->s};
        if (auto It = Occ.find({C->b, C->e}); It != Occ.end()) P.O = It->second, P.Q = var(C, P.None); // of `inherit name`
        L.push_back(P);
      } else ++Inh, walk(C, Path{}), --Inh;
    }
  }
};
const Object *result(Sys &S, int64_t Id, const Value *&V) {
  static const Value Null = nullptr;
  for (auto &M : S.Out)
    if (auto *P = M.getAsObject(); !P->get("method") && P->getInteger("id") == Id) {
      V = P->get("result");
      if (!V) V = &Null;
      return P;
    }
  return nullptr;
}
std::vector<const Object *> locations(const Value *V) {
  std::vector<const Object *> R;
  if (auto *O = V->getAsObject()) R.push_back(O);
  if (auto *A = V->getAsArray())
    for (auto &E : *A) R.push_back(E.getAsObject());
  return R;
}
void questions(Ctx &X, const Str &T) {
  Program G;
  G.P = ref::parse(T);
  if (!G.P.ok()) return;
  X.add(CScen);
  G.Sc.builtin = su::builtin;
  G.Sc.run(G.P.root);
  for (auto &O : G.Sc.occs) G.Occ[{O.b, O.e}] = &O;
  G.walk(G.P.root, Path{});
  struct Asked {
    int64_t Hover, Def, Compl;
  };
  std::vector<Asked> A;
  int64_t Hints = 0;
  runs(&X, Full, [&](Sys &S) {
    S.notify("textDocument/didOpen", Object{{"textDocument", Object{{"uri", "file:///w/a.nix"}, {"languageId", "nix"}, {"version", 1}, {"text", T}}}});
    for (auto &P : G.L) {
      auto at = [&](int C) {
        Object O = tdoc("file:///w/a.nix");
        O["position"] = cs::pos(0, C);
        return O;
      };
      A.push_back({ask(S, "textDocument/hover", at(P.b)), ask(S, "textDocument/definition", at(P.b)), ask(S, "textDocument/completion", at(P.e))});
    }
    Object O = tdoc("file:///w/a.nix");
    O["range"] = cs::range(0, 0, 9, 0);
    Hints = ask(S, "textDocument/inlayHint", std::move(O));
  }, 0, true, [&](Sys &S, const sched::Outcome &Out) {
    common(X, "", S, Out);
    if (Out.Deadlock || Out.Limit || !Out.Thrown.empty() || !S.Broken.empty()) return;
    const Value *V = nullptr;
    for (size_t I = 0; I < G.L.size(); ++I) {
      auto &P = G.L[I];
      if (P.Q.empty()) P.None = true;
      Str W = " at " + P.Name + "(" + std::to_string(P.b) + ")";
      bool Pkg = P.K == Place::Var || P.K == Place::SelectName;
      // hover
      if (result(S, A[I].Hover, V)) {
        Str Got = V->getAsObject() ? V->getAsObject()->getObject("contents")->getString("value").value_or("?").str() : "";
        X.outcome("hover" + Got);
        std::set<Str> Want;
        if (P.None || P.K == Place::OtherName) Want.insert("");
        for (auto &Q : P.Q) {
          Str N = dots(Q);
          if (P.K == Place::Option) Want.insert("T (" + N + ")\n\nnixos:" + N), Want.insert("T (" + N + ")\n\no1:" + N);
          else Want.insert("`name:" + N + "`\n## Description\n\nd:" + N + "\n\n");
        }
        if (!Want.count(Got)) X.fail("hover", "hover" + W + " shows " + Got + ", expected " + *Want.rbegin());
      }
      // definition
      if (result(S, A[I].Def, V)) {
        Str Got;
        for (auto *O : locations(V))
          if (auto U = O->getString("uri"); U && U != "file:///w/a.nix") Got += U->str() + "#" + cs::show(*O->get("range")) + " ";
        auto loc = [&](Str U, int L, int C, int L2, int C2) { return "file://" + U + "#" + cs::show(cs::range(L, C, L2, C2)) + " "; };
        std::set<Str> Want;
        if (P.None) Want.insert("");
        for (auto &Q : P.Q) {
          Str N = dots(Q);
          if (P.K == Place::Option) {
            Str O1 = loc("/opt/o1/" + N, 1, 2, 3, 4), O2 = loc("/opt/nixos/" + N, 1, 2, 3, 4);
            Want.insert(O1 + O2), Want.insert(O2 + O1);
            continue;
          }
          bool Static = P.K == Place::SelectName || (P.O && (P.O->k == ref::Scoping::Defined || P.O->k == ref::Scoping::FromWith));
          Want.insert(loc("/np/" + N, 6, 0, 6, 0));
          if (!Static) Want.insert("");
          if (Got == loc("/np/" + N, 7, 0, 7, 0)) {
            X.fail("position-line", "the definition of " + N + " is on line 7 of the file, counted from 1; the answer counts from 0: " + Got, "position-line");
            Want.insert(Got);
          }
        }
        if (!Want.count(Got)) X.fail("definition", "definition" + W + " leads to " + Got + ", expected " + *Want.rbegin());
      }
      // completion
      if (result(S, A[I].Compl, V)) {
        std::multiset<Str> Got, Want;
        auto *O = V->getAsObject();
        bool Full = O && O->getBoolean("isIncomplete").value_or(false);
        if (O)
          for (auto &E : *O->getArray("items")) {
            auto *J = E.getAsObject();
            Str L = J->getString("label").value_or("").str(), D = J->getString("detail").value_or("").str(), K = D.substr(0, D.find(' '));
            if (L.find("_c1_") != Str::npos || L.find("_c2_") != Str::npos || L.find("_o_") != Str::npos || L.size() > 2 && L.substr(L.size() - 2) == "_p") {
              Got.insert(L + "/" + K);
              // it replaces the name
              if (auto *TE = J->getObject("textEdit"); !TE || cs::show(*TE->get("range")) != cs::show(cs::range(0, P.b, 0, P.e))) X.fail("edit", "completion" + W + " does not replace the name: " + cs::show(E));
            }
          }
        bool Ok = Full || ((P.None || P.At.empty()) && Got.empty());
        for (auto Sc : P.At) {
          Want.clear();
          if (!Sc.empty()) {
            Str Pre = Sc.back();
            Sc.pop_back();
            if (Pkg) Want = {Pre + "_c1_" + dots(Sc) + "/", Pre + "_c2_" + dots(Sc) + "/"};
            else if (P.K == Place::Option)
              for (auto *Wk : {"o1", "nixos"}) Want.insert(Pre + "_o_" + dots(Sc) + "/" + Wk), Want.insert(Pre + "_p/" + Wk);
          }
          Ok |= Got == Want;
        }

        // names that are defined in the file are not offered by nixpkgs
        if (P.K == Place::Var && P.O && P.O->k != ref::Scoping::FromWith) Ok |= Got.empty();
        if (!Ok) {
          Str C, B;
          for (auto &Z : Got) C += Z + " ";
          for (auto &Z : Want) B += Z + " ";
          X.fail("completion", "completion" + W + " offers " + C + ", expected " + B);
        }
      }
    }
    // inlay hints: for exactly the variables that come from `with pkgs`
    if (result(S, Hints, V) && V->getAsArray()) {
      std::map<int, Str> Got;
      for (auto &E : *V->getAsArray()) {
        auto *O = E.getAsObject();
        int C = *O->getObject("position")->getInteger("character");
        if (Got.count(C)) X.fail("hint", "two hints at " + std::to_string(C));
        Got[C] = O->getString("label")->str();
      }
      for (auto &P : G.L) {
        if (P.K != Place::Var || !P.O) continue;
        auto It = Got.find(P.e);
        Str L = It == Got.end() ? "" : It->second;
        if (It != Got.end()) Got.erase(It);
        bool All = P.O->k == ref::Scoping::FromWith, Any = false;
        for (int I : P.O->withs) {
          auto *E = G.Sc.binds[I].at->c[0];
          bool Is = E->k == ref::Var && E->s == "pkgs";
          All &= Is, Any |= Is;
        }
        if (P.O->k != ref::Scoping::FromWith) Any = false;
        if (L != "" && (!Any || L != ": v:" + P.Name)) X.fail("hint", "the hint " + L + " at " + P.Name + "(" + std::to_string(P.b) + ") is wrong");
        if (L == "" && All) X.fail("hint", "no hint at " + P.Name + "(" + std::to_string(P.b) + ")");
      }
      for (auto &[C, L] : Got) X.fail("hint", "the hint " + L + " is at no variable");
    }
  });
}

// ---- P35: shapes of answers -------------------------------------------------
/// Case: METHOD TAB RESULT (or !ERROR), given by the worker at every question of the method.
void shapes(Ctx &X, const Str &Case) {
  X.add(CScen);
  size_t I = Case.find('\t');
  Str M = Case.substr(0, I), R = Case.substr(I + 1);
  bool IsErr = R[0] == '!';
  Value V = cantFail(llvm::json::parse(IsErr ? R.substr(1) : R));
  Shape = [&](const Str &, const Str &Meth, const Value &, Value &Res, bool &Err) {
    if (Meth != "attrset/" + M) return false;
    Res = V, Err = IsErr;
    return true;
  };
  const Str T = "{ pkgs }: { s.x = pkgs.hello; a = with pkgs; [ wo ]; b = pkgs.q.; }";
  std::map<Str, int64_t> Q;
  runs(&X, Full, [&](Sys &S) {
    S.notify("textDocument/didOpen", Object{{"textDocument", Object{{"uri", "file:///w/a.nix"}, {"languageId", "nix"}, {"version", 1}, {"text", T}}}});
    auto at = [&](const Str &What, int D) {
      Object O = tdoc("file:///w/a.nix");
      O["position"] = cs::pos(0, (int64_t)T.find(What) + D);
      return O;
    };
    Q["hover"] = ask(S, "textDocument/hover", at("hello", 1));
    Q["hoverVar"] = ask(S, "textDocument/hover", at("wo ", 1));
    Q["hoverOpt"] = ask(S, "textDocument/hover", at("x =", 0));
    Q["def"] = ask(S, "textDocument/definition", at("hello", 1));
    Q["defVar"] = ask(S, "textDocument/definition", at("wo ", 1));
    Q["defOpt"] = ask(S, "textDocument/definition", at("x =", 0));
    Q["compl"] = ask(S, "textDocument/completion", at("hello", 5));
    Q["complDot"] = ask(S, "textDocument/completion", at("pkgs.q.;", 7));
    Q["complVar"] = ask(S, "textDocument/completion", at("wo ", 2));
    Q["complOpt"] = ask(S, "textDocument/completion", at("x =", 1));
    Q["complHole"] = ask(S, "textDocument/completion", at("{ s.x", 1));
    Q["resolve"] = ask(S, "completionItem/resolve", Object{{"label", "hello"}, {"data", R"({"Scope":["pk"],"Prefix":"he"})"}});
    Object O = tdoc("file:///w/a.nix");
    O["range"] = cs::range(0, 0, 9, 0);
    Q["hints"] = ask(S, "textDocument/inlayHint", std::move(O));
  }, 0, true, [&](Sys &S, const sched::Outcome &Out) {
    common(X, "", S, Out);
    if (Out.Deadlock || Out.Limit || !Out.Thrown.empty() || !S.Broken.empty()) return;
    for (auto &[N, Id] : Q) {
      const Value *Z = nullptr;
      auto *P = result(S, Id, Z);
      if (!P) continue;
      X.outcome(N + cs::show(*Z));
      if (!P->get("result")) X.fail("error", N + " is answered by an error: " + cs::show(*P->get("error")));
      auto *O = Z->getAsObject();
      auto *A = V.getAsObject();
      bool Info = M == "attrpathInfo" && !IsErr && A && A->get("PackageDesc") && A->getObject("Meta") && A->getObject("Meta")->getInteger("Type");
      auto field = [&](const char *F) -> std::optional<Str> { // null unless all is well-typed
        auto *D = A->getObject("PackageDesc");
        if (!D) return std::nullopt;
        auto X = D->getString(F);
        return X ? std::optional<Str>(X->str()) : std::nullopt;
      };
      bool Typed = Info && A->getObject("PackageDesc");
      if (Typed)
        for (auto &[K, F] : *A->getObject("PackageDesc")) Typed &= F.kind() == Value::Null || F.kind() == Value::String;
      if (auto *D = A ? A->getObject("ValueDesc") : nullptr) Typed &= D->getString("doc") && D->getInteger("arity") && D->getArray("args") && std::all_of(D->getArray("args")->begin(), D->getArray("args")->end(), [](auto &Y) { return Y.kind() == Value::String; });
      if (auto *L = Info ? A->getObject("Meta")->get("Location") : nullptr; L && L->kind() != Value::Null) Typed &= L->getAsObject() && L->getAsObject()->getString("uri") && L->getAsObject()->getString("uri")->starts_with("file:///") && L->getAsObject()->getObject("range");
      if (N == "hover" || N == "hoverVar") {
        Str Md = O ? O->getObject("contents")->getString("value").value_or("").str() : "";
        if (O && Md.empty()) X.fail("shape", N + " is answered by an empty text");
        if (Typed) {
          auto has = [&](const Str &Y) { if (Md.find(Y) == Str::npos) X.fail("shape", N + " lacks " + Y + ": " + Md); };
          for (auto *F : {"Name", "Homepage", "Description"})
            if (auto Y = field(F)) has(*Y);
          if (field("Description"))
            if (auto Y = field("LongDescription")) has(*Y);
          if (auto *D = A->getObject("ValueDesc")) {
            has(D->getString("doc")->str());
            for (auto &Y : *D->getArray("args")) has(Y.getAsString()->str());
          }
        } else if (M == "attrpathInfo" && O) X.fail("shape", N + " shows something although the answer is malformed: " + Md);
      }
      if (N == "def" && M == "attrpathInfo") {
        auto L = locations(Z);
        if (!Typed && !L.empty()) X.fail("shape", N + " has a location although the answer is malformed");
        if (Typed) {
          auto Ps = field("Position");
          Object Want;
          if (Ps) {
            size_t C = Ps->rfind(':');
            Str F = Ps->substr(0, C), Nr = C == Str::npos ? "" : Ps->substr(C + 1);
            bool Num = Nr != "" && Nr.size() < 8 && Nr.find_first_not_of("0123456789") == Str::npos && atoi(Nr.c_str()) > 0;
            bool Good = F != "" && F[0] == '/' && !F.starts_with("//") && (C == Str::npos || Num);
            if (!Good) {
              for (auto *E : L)
                if (!E->getString("uri") || !E->getString("uri")->starts_with("file:///")) X.fail("shape", "the position " + *Ps + " leads to " + cs::show(*E->get("uri")));
              continue; // otherwise whatever is answered
            }
            int Ln = C == Str::npos ? 0 : atoi(Nr.c_str()) - 1;
            if (L.size() != 1) {
              X.fail("shape", "the position " + *Ps + " leads nowhere");
              continue;
            }
            int G = *L[0]->getObject("range")->getObject("start")->getInteger("line");
            Str U = L[0]->getString("uri")->str(), WU;
            for (size_t H = 0; H < U.size(); ++H)
              if (U[H] == '%') WU += (char)strtol(U.substr(H + 1, 2).c_str(), nullptr, 16), H += 2;
              else WU += U[H];
            if (WU != "file://" + F) X.fail("shape", "the position " + *Ps + " leads to " + U);
            if (G != Ln) {
              if (C != Str::npos && G == Ln + 1) X.fail("position-line", "the position " + *Ps + " is counted from 1, the answer says line " + std::to_string(G) + " counted from 0", "position-line");
              else X.fail("shape", "the position " + *Ps + " leads to line " + std::to_string(G));
            }
          } else if (auto *Lo = A->getObject("Meta")->getObject("Location")) {
            if (L.size() != 1 || cs::show(*L[0]->get("range")) != cs::show(*Lo->get("range")) || L[0]->getString("uri") != Lo->getString("uri")) X.fail("shape", "the definition is " + cs::show(*Z) + ", the value is at " + cs::show(*A->getObject("Meta")->get("Location")));
          } else if (!L.empty()) X.fail("shape", "a location comes from nowhere: " + cs::show(*Z));
        }
      }
      if (N == "hints" && M == "attrpathInfo" && Z->getAsArray()) {
        bool Want = Typed && field("Version");
        auto &H = *Z->getAsArray();
        if (H.size() != Want) X.fail("shape", std::to_string(H.size()) + " hints for " + R);
        else if (Want && H[0].getAsObject()->getString("label") != ": " + *field("Version")) X.fail("shape", "the hint is " + cs::show(H[0]));
      }
      if (N == "resolve" && M == "attrpathInfo") {
        if (!O || O->getString("label") != llvm::StringRef("hello")) X.fail("shape", "the resolved item has another label: " + cs::show(*Z));
        else if (Typed)
          for (auto *F : {"Version", "Description", "LongDescription"})
            if (auto Y = field(F); Y && cs::show(*Z).find(cs::show(Value(*Y)).substr(1, cs::show(Value(*Y)).size() - 2)) == Str::npos) X.fail("shape", "the resolved item lacks " + *Y);
      }
      if (N.starts_with("compl")) {
        auto *Items = O ? O->getArray("items") : nullptr;
        if (!Items) continue;
        std::vector<Str> Labels;
        for (auto &E : *Items) {
          auto L = E.getAsObject()->getString("label").value_or("").str();
          if (L == "") X.fail("shape", "an item has no label");
          if (E.getAsObject()->getInteger("kind") != 14 && E.getAsObject()->getInteger("kind") != 6) Labels.push_back(L);
        }
        bool Inc = O->getBoolean("isIncomplete").value_or(false);
        if (M == "attrpathComplete" && (N == "compl" || N == "complDot" || N == "complVar")) {
          std::vector<Str> Want;
          bool Ok = !IsErr && V.getAsArray();
          if (Ok)
            for (auto &E : *V.getAsArray()) Ok &= E.kind() == Value::String;
          Str Pre = N == "compl" ? "hello" : N == "complVar" ? "wo" : "";
          if (Ok)
            for (auto &E : *V.getAsArray())
              if (Str L = E.getAsString()->str(); L.starts_with(Pre) && L != "") Want.push_back(L);
          bool Too = Labels.size() < Want.size() && Inc && std::equal(Labels.begin(), Labels.end(), Want.begin());
          if (Labels != Want && !Too) X.fail("shape", N + " offers " + cs::show(*Z) + " for " + R);
        }
        if (M == "optionComplete" && (N == "complOpt" || N == "complHole")) {
          // every field that has a name is offered by both workers
          bool Ok = !IsErr && V.getAsArray();
          std::set<Str> Want;
          if (Ok)
            for (auto &E : *V.getAsArray()) {
              auto *F = E.getAsObject();
              Ok &= F && (!F->get("Name") || F->getString("Name"));
              if (Ok && F->getString("Name").value_or("") != "") Want.insert(F->getString("Name")->str());
            }
          for (auto &W : Want) {
            int K = 0;
            for (auto &L : Labels) K += L == W || L == W + " (example)" || L == W + " (default)";
            if (Ok && !Inc && K < 2 && R.find("\"bad\"") == Str::npos) X.fail("shape", N + " does not offer " + W + " for " + R);
          }
          if (!Ok && !Labels.empty()) X.fail("shape", N + " offers something for " + R);
        }
      }
      if (N == "defOpt" && M == "optionInfo") {
        auto L = locations(Z);
        size_t Want = 0;
        bool Ok = !IsErr && A;
        if (Ok && A->getArray("Declarations"))
          for (auto &E : *A->getArray("Declarations")) {
            auto *F = E.getAsObject();
            bool G = F && F->getString("uri") && F->getString("uri")->starts_with("file:///") && F->getObject("range");
            Ok &= G, Want += G;
          }
        if (R.find("\"bad\"") != Str::npos) continue;
        if (!Ok) Want = 0;
        if (L.size() != 2 * Want) X.fail("shape", "definition of an option has " + std::to_string(L.size()) + " locations for " + R);
      }
      if (N == "hoverOpt" && M == "optionInfo") {
        Str Md = O ? O->getObject("contents")->getString("value").value_or("").str() : "";
        if (!IsErr && A && R.find("\"bad\"") == Str::npos) {
          if (auto D = A->getString("Description"); D && Md.find(D->str()) == Str::npos) X.fail("shape", "hover of an option lacks its description: " + Md);
          if (auto *Ty = A->getObject("Type"))
            for (auto *F : {"Name", "Description"})
              if (auto D = Ty->getString(F); D && Md.find(D->str()) == Str::npos) X.fail("shape", "hover of an option lacks its type: " + Md);
        } else if (O && R.find("\"bad\"") == Str::npos) X.fail("shape", "hover of an option shows " + Md);
      }
    }
  });
  Shape = nullptr;
}
std::vector<Str> shapeCases() {
  std::vector<Str> L;
  auto add = [&](const Str &M, const Str &R) { L.push_back(M + "\t" + R); };
  const std::vector<Str> Misc = {"null", "{}", "[]", "7", "\"x\"", "true", "[null]", "[[]]", "{\"a\":1}", "!{\"code\":-32000,\"message\":\"no\"}", "!{\"code\":1,\"message\":\"\"}", "!{}", "!null", "!7"};
  for (auto *M : {"attrpathInfo", "attrpathComplete", "optionInfo", "optionComplete", "evalExpr"})
    for (auto &R : Misc) add(M, R);
  // package information: every pair of fields over these values
  const std::vector<Str> Keys = {"Name", "PName", "Version", "Description", "LongDescription", "Position", "Homepage"};
  const std::vector<Str> Vals = {"null", "\"v1\"", "\"\"", "\"l1\\nl2\\\"\\u00e9\"", "5", "-"};
  const std::vector<Str> Pos = {"\"/f\"", "\"/f:1\"", "\"/f:12\"", "\"/d/f.nix:3\"", "\"/f:\"", "\"/f:x\"", "\"/f:0\"", "\"/f:-3\"", "\"/f:99999999999999999999\"", "\"/f:2147483648\"", "\":3\"", "\":\"", "\"f.nix:3\"", "\"f.nix\"", "\"/a:b/c.nix:12\"", "\"/a:b/c.nix\"", "\"/f:3:4\"", "\"/f: 3\"", "\"/f:3x\"", "\"<nix/x.nix>:3\"", "\"\\u00ab\"", "\"/f g:2\"", "\"//x:1\"", "\"/\"", "\"C:\\\\x:1\""};
  const Str Meta = "\"Meta\":{\"Type\":1,\"Location\":null}";
  auto pkg = [&](const std::map<Str, Str> &F) {
    Str R;
    for (auto &[K, V] : F)
      if (V != "-") R += (R == "" ? "" : ",") + ("\"" + K + "\":" + V);
    return "{" + R + "}";
  };
  std::map<Str, Str> Null;
  for (auto &K : Keys) Null[K] = "null";
  for (size_t I = 0; I < Keys.size(); ++I)
    for (size_t J = I; J < Keys.size(); ++J)
      for (auto &A : Vals)
        for (auto &B : Vals) {
          auto F = Null;
          F[Keys[I]] = A;
          F[Keys[J]] = B;
          add("attrpathInfo", "{" + Meta + ",\"PackageDesc\":" + pkg(F) + ",\"ValueDesc\":null}");
        }
  for (auto &P : Pos) {
    auto F = Null;
    F["Position"] = P;
    add("attrpathInfo", "{" + Meta + ",\"PackageDesc\":" + pkg(F) + "}");
  }
  for (auto *P : {"null", "{}", "7", "[]"}) add("attrpathInfo", "{" + Meta + ",\"PackageDesc\":" + P + "}");
  const Str Desc = pkg(Null);
  for (auto *Me : {"{\"Type\":1}", "{}", "null", "{\"Type\":\"x\"}", "{\"Type\":1,\"Location\":{\"uri\":\"file:///v.nix\",\"range\":{\"start\":{\"line\":4,\"character\":5},\"end\":{\"line\":6,\"character\":7}}}}", "{\"Type\":1,\"Location\":{\"uri\":\"http://x/v.nix\",\"range\":{\"start\":{\"line\":4,\"character\":5},\"end\":{\"line\":6,\"character\":7}}}}", "{\"Type\":1,\"Location\":{\"uri\":\"\",\"range\":null}}", "{\"Type\":1,\"Location\":{}}", "{\"Type\":1,\"Location\":7}"}) add("attrpathInfo", Str("{\"Meta\":") + Me + ",\"PackageDesc\":" + Desc + "}");
  for (auto *D : {"\"d\"", "\"\"", "null", "3"})
    for (auto *A : {"0", "2", "-1", "\"x\"", "null"})
      for (auto *G : {"[]", "[\"a1\"]", "[\"a1\",\"b2\"]", "null", "[1]", "\"x\""}) add("attrpathInfo", "{" + Meta + ",\"PackageDesc\":" + Desc + ",\"ValueDesc\":{\"doc\":" + D + ",\"arity\":" + A + ",\"args\":" + G + "}}");
  // names
  const std::vector<Str> Names = {"\"hello1\"", "\"wo\"", "\"work\"", "\"\"", "\"a b\"", "\"other\"", "\"\\u00e9\"", "\"hello\"", "5"};
  for (auto &A : Names) {
    add("attrpathComplete", "[" + A + "]");
    for (auto &B : Names) {
      add("attrpathComplete", "[" + A + "," + B + "]");
      for (auto &D : Names) add("attrpathComplete", "[" + A + "," + B + "," + D + "]");
    }
  }
  for (int N : {29, 30, 31, 60}) {
    Str R;
    for (int I = 0; I < N; ++I) R += (I ? "," : "") + ("\"wo" + std::to_string(I) + "\"");
    add("attrpathComplete", "[" + R + "]");
  }
  // options
  const Str LocA = "{\"uri\":\"file:///o.nix\",\"range\":{\"start\":{\"line\":1,\"character\":0},\"end\":{\"line\":1,\"character\":0}}}";
  std::vector<Str> Ds;
  for (auto *De : {"null", "\"de\"", "\"\"", "5"})
    for (auto &Dl : std::vector<Str>{"[]", "[" + LocA + "]", "[" + LocA + "," + LocA + "]", "null", "[7]", "[{\"uri\":\"x\",\"range\":{}}]"})
      for (auto *Ex : {"null", "\"ex\"", "\"\""})
        for (auto *Df : {"null", "\"ex\"", "\"df\""})
          for (auto *Ty : {"null", "{}", "{\"Name\":\"tn\",\"Description\":\"td\"}", "{\"Name\":null,\"Description\":\"td\"}", "7"}) Ds.push_back(Str("{\"Description\":") + De + ",\"Declarations\":" + Dl + ",\"Definitions\":[],\"Example\":" + Ex + ",\"Default\":" + Df + ",\"Type\":" + Ty + "}");
  for (auto &D : Ds) {
    bool Bad = D.find(":5,") != Str::npos || D.find(":7}") != Str::npos || D.find("[7]") != Str::npos || D.find("\"x\"") != Str::npos || D.find("\"Declarations\":null") != Str::npos;
    Str Z = Bad ? D.substr(0, D.size() - 1) + ",\"bad\":1}" : D;
    add("optionInfo", Z);
    for (auto *N : {"\"xo\"", "\"\""}) add("optionComplete", Str("[{\"Name\":") + N + ",\"Description\":" + Z + "}]");
  }
  for (auto *N : {"\"xo\"", "\"\"", "null", "5", "\"a.b\"", "\"${x}\\\\\""}) {
    add("optionComplete", Str("[{\"Name\":") + N + ",\"Description\":null}]");
    add("optionComplete", Str("[{\"Name\":") + N + "},{\"Name\":\"x2\"}]");
    add("optionComplete", Str("[{\"Name\":") + N + ",\"Description\":{}}]");
  }
  add("optionComplete", "[{}]");
  return L;
}
} // namespace

int main(int argc, char **argv) {
  Check C(argv[1], argc - 1, argv + 1);
  Quick = C.quick();
  C.Counters = {"scenarios", "schedules", "steps", "answers_compared", "publications_compared"};
  C.BudgetS = Quick ? 600 : 6000;
  C.HangS = 60;
  C.WorkerInit = [] { formatting(); };
  auto add = [&](Space S) { C.Spaces.push_back(std::move(S)); };
  auto seqs = [](std::vector<Str> V, unsigned Min, unsigned Max, const Str &Pre) {
    for (auto &Z : V) Z += " ";
    Space S = seqSpace("", "", V, Min, Max);
    std::vector<Str> R;
    for (uint64_t I = 0; I < S.Size; ++I) R.push_back(Pre + S.At(I));
    return R;
  };
  auto append = [](std::vector<Str> &A, const std::vector<Str> &B) { A.insert(A.end(), B.begin(), B.end()); };
  std::vector<Str> RA;
  for (auto &R : reqs()) RA.push_back("R" + R.Name + "a");
  if (C.Id == "P21") {
    C.Rule = "The real Controller with its thread pool, the input threads of its workers and in-memory workers that answer. Part 1: every request at every position of every text of the stated spaces, positions outside of the text included, under AddressSanitizer. Part 2: every stated history of requests, edits and configurations under every schedule within the stated bound; answers must be those of some text the document had between request and answer.";
    C.Assumptions = {"threads switch at locks, semaphores, posted work and reads and writes"};
    auto FT = sp::tokensFull();
    FT.push_back("config"), FT.push_back("pkgs"), FT.push_back("\n");
    add(seqSpace("tokens", "all sequences of tokens", FT, 0, Quick ? 2 : 3, " "));
    add(seqSpace("tight", "all sequences of tokens without spaces", {"{", "}", "a", ".", "=", ";", "\"", "${", "(", ")", ":", "?", "\n", "inherit ", "with ", "config", "pkgs"}, 1, Quick ? 3 : 4));
    {
      std::vector<Str> R;
      for (auto &[A, B] : sp::contexts())
        for (auto &T : FT) {
          R.push_back(A + T + B);
          for (auto &U : FT)
            if (!Quick || (T != U && Str(" = { ; . } ").find(" " + T + " ") != Str::npos && Str(" a ${ ; ").find(" " + U + " ") != Str::npos)) R.push_back(A + T + " " + U + B);
        }
      add(listSpace("contexts", "pairs of tokens in each construct", R));
    }
    {
      std::vector<Str> R;
      sp::Forms F{sp::exprForms()};
      F.gen(Quick ? 1 : 2, R);
      add(listSpace("forms", "grammar forms", R));
    }
    const std::vector<Str> Places = {"{ a = @; }", "{ ${@} = 1; }", "{ \"${@}\" = 1; }", "{ config.s.${@}.t = @; }", "{ inherit (@) a; }", "rec { a.b = @; a.c = @; }", "let a = @; in @", "(@)", "with pkgs; @", "@.a", "{ a ? @ }: @", "\"${@}\""};
    const std::vector<Str> Inner = {"{ a = 1; }", "{ config = 1; }", "pkgs.a", "{ inherit a; }", "{ }", "{ a. = 1; }", "{ config.", "./x"};
    add(sp::chainSpace("attrs", "names in all places of nested sets, interpolations and inherits", Places, {"1", "pkgs"}, Inner, 1));
    add(sp::chainSpace("attrs2", "the same, nested", Places, {"1"}, Quick ? std::vector<Str>{"{ config = 1; }"} : Inner, 2));
    if (!Quick) add(sp::chainSpace("attrs3", "the same, nested further", Places, {"1"}, {"{ config = 1; }"}, 3));
    {
      std::vector<Str> R;
      for (auto *U : {"file:///w/a.nix", "file:///w/none.nix", "file:///", "file:", "http://x/a.nix", "", "a.nix", "untitled:Untitled-1", "file:///w/%zz.nix", "file:///w/%00.nix", "file://host/w/a.nix", "FILE:///w/a.nix"}) R.push_back(U);
      add(listSpace("documents", "documents that are not open, and other addresses", R));
    }
    std::vector<Str> L;
    // one or two requests with anything that can happen between
    std::vector<Str> Other = {"Ca5", "Xa", "Da", "K1", "K2", "K5", "Oa1"};
    for (auto &R : RA)
      for (auto &O : Other) {
        L.push_back("2d:I W K2 W Oa0;" + R + " " + O);
        if (!Quick || O[0] == 'K') L.push_back("2d:I W K2 W Oa0;" + O + " " + R);
      }
    const std::vector<Str> Some = {"Rhpa", "Rhoa", "Rcpa", "Rcoa", "Rdpa", "Rdoa", "Riha", "Rcra", "Rrna", "Rdsa", "Rcaa", "Rsha"};
    for (auto &R : Some)
      for (auto &S : Some) {
        L.push_back((Quick ? "1d:I W K2 W Oa0;" : "2d:I W K2 W Oa0;") + R + " " + S);
        for (auto &O : Quick ? std::vector<Str>{"Ca5", "K1"} : std::vector<Str>{"Ca5", "Xa", "K1", "K2"})
          if (!Quick || &R <= &S) L.push_back("1d:I W K2 W Oa0;" + R + " " + O + " " + S);
      }
    for (auto &R : Some) {
      L.push_back("1d:;I Oa0 " + R);
      L.push_back("1d:I;Oa0 " + R);
      L.push_back("1d:I W K2 W;Oa0 " + R + " Ca5 Xa Ob1 " + R);
      if (!Quick) append(L, {"3:I W K2 W Oa0;" + R + " Ca5", "2:I W K2 W Oa0;" + R + " Ca5 " + R, "3d:I W K2 W Oa0;" + R + " K1", "2d:;I Oa0 " + R});
    }
    add(listSpace("schedules", "histories of requests, edits and configurations, under every schedule up to the bound they begin with: a number of preemptions, or with d of deviations from the first order", L));
    C.Eval = [](Ctx &X, const Str &Sp, const Str &T) {
      if (Sp == "schedules") evalScen(X, T);
      else if (Sp == "documents") sweep(X, "{ a = 1; }", T);
      else sweep(X, T, "file:///w/a.nix");
    };
  }
  if (C.Id == "P35") {
    C.Rule = "The real Controller and worker clients with in-memory workers. Questions: the workers' answers name what they were asked, and hover, definition, completion and inlay hints at every name of every program of the stated space must show the answers to the questions that the reference resolver derives. Shapes: every stated answer, well-formed or not, to every kind of question. Orders: questions asked at the same time and answered in every order under every schedule within the stated bound, and workers that are silent about or end at a question.";
    C.Assumptions = {"a variable named pkgs denotes nixpkgs and lib its library, as nixd documents", "hover and definition on a name of a selection are about the whole selection"};
    add(sp::chainSpace("questions", "programs over names from nixpkgs, options and the file", {"with pkgs; @", "with lib; @", "with pkgs.q; @", "with x; @", "let hello = 1; in @", "({ hello }: @)", "{ pkgs, lib, ... }: @", "let pkgs = 1; in @", "rec { hello = 2; y = @; }", "[ (@) ]", "{ services.foo = @; }", "{ config.s = @; }", "{ ${x} = @; }", "{ inherit (@) hello; }"}, {"a"}, {"hello", "pkgs.hello", "lib.strings.f", "pkgs", "x.hello", "pkgs.${x}.z", "{ a.b = hello; c = { d = pkgs.hello; }; }", "(pkgs.hello or hello)", "{ inherit hello; }", "{ inherit (pkgs) hello; }", "hello.out", "{ config = { }; config.y = 1; }", "\"${pkgs.q}\""}, 1));
    for (int D : Quick ? std::vector<int>{2} : std::vector<int>{2, 3}) add(sp::chainSpace("nested" + std::to_string(D), "the same, contexts nested", {"with pkgs; @", "with lib; @", "with pkgs.q; @", "with x; @", "let hello = 1; in @", "({ hello }: @)", "{ pkgs, lib, ... }: @", "let pkgs = 1; in @", "rec { hello = 2; y = @; }", "[ (@) ]", "{ services.foo = @; }", "{ config.s = @; }", "{ ${x} = @; }", "{ inherit (@) hello; }"}, {"a"}, {"hello", "pkgs.hello", "lib.strings.f", "pkgs", "x.hello", "pkgs.${x}.z", "{ a.b = hello; c = { d = pkgs.hello; }; }", "(pkgs.hello or hello)", "{ inherit hello; }", "{ inherit (pkgs) hello; }", "hello.out", "{ config = { }; config.y = 1; }", "\"${pkgs.q}\""}, D));
    add(listSpace("shapes", "answers of workers", shapeCases()));
    std::vector<Str> L;
    const std::vector<Str> Ask = {"Rhpa", "Rhwa", "Rhoa", "Rcpa", "Rcoa", "Rcva", "Rcra", "Rdva", "Rdpa", "Rdoa", "Riha"};
    for (auto &A : Ask)
      for (auto &B : Ask) {
        if (!Quick || &A <= &B) L.push_back("2da:I W K2 W Oa0;" + A + " " + B);
        if (!Quick) L.push_back("1a:I W K2 W Oa0;" + A + " " + B);
        L.push_back("1da:I W K2 W Oa0 Ob5;" + A + " " + B.substr(0, 3) + "b");
        for (auto &D : Ask)
          if (!Quick || (&A <= &B && &B <= &D)) L.push_back("1da:I W K2 W Oa0;" + A + " " + B + " " + D);
      }
    add(listSpace("orders", "questions at the same time, answered in every order", L));
    C.Eval = [](Ctx &X, const Str &Sp, const Str &T) {
      if (Sp == "shapes") shapes(X, T);
      else if (Sp == "orders") evalScen(X, T);
      else questions(X, T);
    };
  }
  return C.run();
}
