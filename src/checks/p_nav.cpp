// P22, P23, P25: navigation, rename and completion of variables, asked of the real Controller at every
// occurrence and name of every binding, against the reference resolver.
#include "checks/nixspaces.h"
#include "checks/scopeutil.h"
#include "checks/textref.h"
#include "ctl/session.h"
#include "ref/resolve.h"

using namespace mc;
using cs::Array;
using cs::Object;
using cs::Value;
using R2 = std::pair<int, int>;

namespace {
Str Pid;
bool Quick = true;
enum { CTexts, CRequests, COccs, CBinds, CRefused };
const Str DocUri = "file:///base/t.nix";
cs::Session *S = nullptr;

Str sh(R2 R) { return std::to_string(R.first) + "-" + std::to_string(R.second); }
Str sh(const std::vector<R2> &V) {
  Str R = "[";
  for (auto &X : V) R += " " + sh(X);
  return R + " ]";
}
int off(const Str &T, const Value *P) {
  auto *O = P ? P->getAsObject() : nullptr;
  if (!O) return -1;
  auto L = O->getInteger("line"), C = O->getInteger("character");
  if (!L || !C) return -1;
  auto R = tr::offset(T, *L, *C, false);
  return R.empty() ? -1 : (int)R[0];
}
R2 rangeOf(const Str &T, const Value *V) {
  auto *O = V ? V->getAsObject() : nullptr;
  if (!O) return {-1, -1};
  return {off(T, O->get("start")), off(T, O->get("end"))};
}
Value ask(const Str &Method, const Str &T, int At, const Str *NewName = nullptr) {
  auto P = tr::position(T, At);
  Object O = S->at(DocUri, P.first, P.second);
  if (Method == "textDocument/references") O["context"] = Object{{"includeDeclaration", true}};
  if (NewName) O["newName"] = *NewName;
  Value V = S->request(Method, std::move(O));
  S->reset();
  return V;
}
struct Prog {
  ref::Parsed P;
  ref::Scoping So;
  std::map<Str, std::vector<R2>> Global; ///< uses of global names
  explicit Prog(const Str &T) : P(ref::parse(T)) {
    if (!P.ok()) return;
    So.builtin = su::builtin;
    So.run(P.root);
    for (auto &O : So.occs)
      if (O.k == ref::Scoping::Builtin) Global[O.name].push_back({O.b, O.e});
  }
  std::vector<R2> names(int B) {
    auto &D = So.binds[B];
    if (D.k == ref::Scoping::BWith) return {{D.at->b, D.at->b + 4}};
    std::vector<R2> R{{D.at->b, D.at->e}};
    for (auto *M : D.more) R.push_back({M->b, M->e});
    std::sort(R.begin(), R.end());
    return R;
  }
  std::vector<R2> uses(int B) {
    auto R = So.binds[B].uses;
    std::sort(R.begin(), R.end());
    return R;
  }
};
bool word(char C) { return isalnum((unsigned char)C) || C == '_' || C == '\'' || C == '-'; }
/// the positions that are on the text b..e: on one of its characters, or just behind it
std::vector<int> on(const Str &T, int b, int e) {
  std::vector<int> R;
  for (int I = b; I < e; ++I)
    if (tr::boundary(T, I) && !(I == b && b && T[b] == '"' && word(T[b - 1]))) R.push_back(I);
  if (e >= (int)T.size() || !word(T[e])) R.push_back(e);
  return R;
}
const char *kind(ref::Scoping::OK K) {
  static const char *N[] = {"undefined", "global", "defined", "from with"};
  return N[K];
}

void p22(Ctx &X, const Str &T) {
  X.add(CTexts);
  Prog P(T);
  if (!P.P.ok()) return;
  S->open(DocUri, T);
  S->reset();
  // references and highlights asked at \p At must be those of one of \p Bs
  auto same = [&](int At, const std::vector<int> &Bs, const Str *GlobalName, const Str &What) {
    Value V = ask("textDocument/references", T, At), W = ask("textDocument/documentHighlight", T, At);
    X.add(CRequests, 2);
    auto *L = V.getAsObject() ? V.getAsObject()->getArray("result") : nullptr;
    auto *H = W.getAsObject() ? W.getAsObject()->getArray("result") : nullptr;
    std::vector<R2> Refs, Reads, Writes;
    if (L)
      for (auto &E : *L) {
        auto *O = E.getAsObject();
        if (!O || O->getString("uri") != llvm::StringRef(DocUri)) X.fail("reference-uri", esc(T) + " at " + std::to_string(At));
        Refs.push_back(rangeOf(T, O ? O->get("range") : nullptr));
      }
    if (H)
      for (auto &E : *H) {
        auto *O = E.getAsObject();
        (O && O->getInteger("kind") == 3 ? Writes : Reads).push_back(rangeOf(T, O ? O->get("range") : nullptr));
      }
    std::sort(Refs.begin(), Refs.end());
    std::sort(Reads.begin(), Reads.end());
    std::sort(Writes.begin(), Writes.end());
    if (Bs.empty() && !GlobalName) { // no binding
      if (!Refs.empty() || !Reads.empty() || !Writes.empty()) X.fail("undefined-refs", esc(T) + " at " + std::to_string(At) + " (" + What + "): references " + sh(Refs) + ", highlights " + sh(Reads) + sh(Writes));
      return;
    }
    bool RO = false, HO = false;
    Str Exp;
    auto cand = [&](const std::vector<R2> &U, const std::vector<R2> &N) {
      RO |= L && Refs == U;
      HO |= H && Reads == U && Writes == N;
      Exp += " uses " + sh(U) + " names " + sh(N);
    };
    if (GlobalName) cand(P.Global[*GlobalName], {});
    for (int B : Bs) cand(P.uses(B), P.names(B));
    if (!RO) X.fail("references", esc(T) + " at " + std::to_string(At) + " (" + What + "): references " + (L ? sh(Refs) : cs::show(V)) + ", expected" + Exp);
    if (!HO) X.fail("highlights", esc(T) + " at " + std::to_string(At) + " (" + What + "): highlights read" + (H ? sh(Reads) : cs::show(W)) + " write" + sh(Writes) + ", expected" + Exp);
  };
  std::set<int> Asked;
  for (auto &O : P.So.occs) {
    if (O.name == "pkgs" || O.name == "lib") continue; // asks the worker, see P35
    if (O.name == "__curPos") continue; // a keyword
    X.add(COccs);
    for (int At : on(T, O.b, O.e)) {
      Asked.insert(At);
      Value V = ask("textDocument/definition", T, At);
      X.add(CRequests);
      auto *Ob = V.getAsObject();
      auto *Rs = Ob ? Ob->get("result") : nullptr;
      std::vector<R2> Got;
      Str Why;
      auto loc = [&](const Value &E) {
        auto *Lo = E.getAsObject();
        if (!Lo || Lo->getString("uri") != llvm::StringRef(DocUri)) Why = "no location in the document";
        else Got.push_back(rangeOf(T, Lo->get("range")));
      };
      if (!Rs) Why = "no answer";
      else if (auto *A = Rs->getAsArray())
        for (auto &E : *A) loc(E);
      else if (Rs->getAsObject()) loc(*Rs);
      Str Head = esc(T) + " at " + std::to_string(At) + " (" + kind(O.k) + " " + O.name + "): ";
      if (!Why.empty()) {
        X.fail("definition-answer", Head + Why + ": " + cs::show(V));
        continue;
      }
      std::vector<R2> Exp;
      std::vector<int> Bs;
      if (O.k == ref::Scoping::Defined) Bs = {O.bind};
      else if (O.k == ref::Scoping::FromWith) Bs = O.withs;
      for (int B : Bs)
        for (auto &N : P.names(B)) Exp.push_back(N);
      bool Ok = Exp.empty() ? Got.empty() : Got.size() == 1 && std::find(Exp.begin(), Exp.end(), Got[0]) != Exp.end();
      if (!Ok) X.fail("definition", Head + "definition " + sh(Got) + ", expected one of " + sh(Exp));
      X.outcome(T + sh(Got));
      same(At, Bs, O.k == ref::Scoping::Builtin ? &O.name : nullptr, Str(kind(O.k)) + " " + O.name);
    }
  }
  // from the names of the bindings; a name of `inherit` is an occurrence
  for (size_t B = 0; B < P.So.binds.size(); ++B) {
    auto &D = P.So.binds[B];
    if (D.how == ref::Def::Inherited) continue;
    X.add(CBinds);
    for (auto &N : P.names(B))
      for (int At : on(T, N.first, N.second))
        if (!Asked.count(At)) same(At, {(int)B}, nullptr, "binding " + D.name);
  }
  S->close(DocUri);
  S->reset();
}

/// Equality of two programs, the second having the binding named \p X at the
/// node \p At of the first renamed to \p Y.
struct Alpha {
  const ref::N *At;
  Str X, Y, Why;
  struct F {
    F *up;
    int id;
    std::set<Str> names;
    bool with;
  };
  std::deque<F> fs;
  int Ids = 0, Target = -1;
  F *frame(F *Up, int Id, bool With = false) {
    fs.push_back({Up, Id, {}, With});
    return &fs.back();
  }
  Str resolve(const Str &N, F *E) {
    Str W;
    for (; E; E = E->up) {
      if (E->names.count(N)) return std::to_string(E->id) + "." + N;
      if (E->with) W += "w" + std::to_string(E->id);
    }
    if (su::builtin(N)) return "global " + N;
    return W + " " + N;
  }
  bool no(const Str &W) {
    if (Why.empty()) Why = W;
    return false;
  }
  bool var(const Str &A, F *Ea, const Str &B, F *Eb) {
    Str U = resolve(A, Ea), V = resolve(B, Eb);
    if (Target >= 0 && U == std::to_string(Target) + "." + X) U = std::to_string(Target) + "." + Y;
    return U == V || no("occurrence " + A + " (" + U + ") became " + B + " (" + V + ")");
  }
  const ref::N *strip(const ref::N *N) {
    while (N && N->k == ref::Paren) N = N->c[0];
    return N;
  }
  /// the frames in which the values live
  bool set(const ref::Set *A, const ref::Set *B, F *Ea, F *Eb, F *&Ia, F *&Ib) {
    if (A->rec != B->rec) return no("rec");
    Ia = Ea;
    Ib = Eb;
    bool Here = false;
    if (A->rec) {
      int Id = Ids++;
      Ia = frame(Ea, Id);
      Ib = frame(Eb, Id);
      for (auto &[N, D] : A->st) {
        Ia->names.insert(N);
        if (D.name == At) Here = true, Target = Id;
      }
      for (auto &[N, D] : B->st) Ib->names.insert(N);
    }
    if (A->st.size() != B->st.size()) return no("number of attributes");
    for (auto &[N, D] : A->st) {
      auto It = B->st.find(Here && N == X ? Y : N);
      if (It == B->st.end()) return no("attribute " + N + " is missing");
      if (!value(D, N, Ea, Ia, It->second, It->first, Eb, Ib)) return no("attribute " + N);
    }
    if (A->from.size() != B->from.size()) return no("inherit sources");
    for (size_t I = 0; I < A->from.size(); ++I)
      if (!eq(A->from[I], B->from[I], Ia, Ib)) return false;
    if (A->dyn.size() != B->dyn.size()) return no("dynamic attributes");
    for (size_t I = 0; I < A->dyn.size(); ++I) {
      auto &D = A->dyn[I];
      auto &G = B->dyn[I];
      if (!eq(D.name, G.name, Ia, Ib)) return false;
      if (!!D.nested != !!G.nested) return no("dynamic");
      if (D.nested && !(D.value && D.value->k == ref::Attrs && D.value->set == D.nested)) {
        F *P, *Q;
        if (!set(D.nested, G.nested, Ia, Ib, P, Q)) return false;
      } else if (!eq(D.value, G.value, Ia, Ib)) return false;
    }
    return true;
  }
  bool value(const ref::Def &D, const Str &N, F *Ea, F *Ia, const ref::Def &G, const Str &M, F *Eb, F *Ib) {
    using ref::Def;
    auto name = [&](const Def &Z, const Str &K, Str &R) {
      if (Z.kind == Def::Inherited) return R = K, true;
      auto *V = Z.kind == Def::Plain ? strip(Z.value) : nullptr;
      if (V && V->k == ref::Var) return R = V->s, true;
      return false;
    };
    if (D.kind == Def::Inherited || G.kind == Def::Inherited) {
      Str P, Q;
      if (!name(D, N, P) || !name(G, M, Q)) return no("inherit of " + N);
      return var(P, D.kind == Def::Inherited ? Ea : Ia, Q, G.kind == Def::Inherited ? Eb : Ib);
    }
    if (D.kind == Def::InheritedFrom || G.kind == Def::InheritedFrom) {
      auto part = [&](const Def &Z, const Str &K, const ref::N *&Src, Str &R) {
        if (Z.kind == Def::InheritedFrom) return Src = strip(Z.value), R = K, true;
        auto *V = strip(Z.value);
        if (!V || V->k != ref::Select || V->c[1]->c.size() != 1 || !ref::Desugar::isStatic(V->c[1]->c[0]) || (V->c.size() > 2 && V->c[2])) return false;
        Src = strip(V->c[0]);
        R = ref::Desugar::nameOf(V->c[1]->c[0]);
        return true;
      };
      const ref::N *P, *Q;
      Str U, V;
      if (!part(D, N, P, U) || !part(G, M, Q, V) || U != V) return no("inherit from of " + N);
      return eq(P, Q, Ia, Ib);
    }
    if (!!D.nested != !!G.nested) return no("nested set");
    if (D.nested && !(D.value && D.value->k == ref::Attrs && D.value->set == D.nested)) {
      F *P, *Q;
      return set(D.nested, G.nested, Ia, Ib, P, Q);
    }
    return eq(D.value, G.value, Ia, Ib);
  }
  bool eq(const ref::N *A, const ref::N *B, F *Ea, F *Eb) {
    if (!A || !B) return A == B || no("missing part");
    if (A->k != B->k) return no(Str("kind ") + ref::kname(A->k) + " became " + ref::kname(B->k));
    if (A->k == ref::Var) {
      if (A->s == "__curPos" || B->s == "__curPos") return A->s == B->s || no("__curPos");
      return var(A->s, Ea, B->s, Eb);
    }
    if (A->s != B->s) return no("text " + A->s + " became " + B->s);
    F *Ia, *Ib;
    switch (A->k) {
    case ref::Attrs:
    case ref::LegacyLet: return set(A->set, B->set, Ea, Eb, Ia, Ib);
    case ref::Let: return set(A->set, B->set, Ea, Eb, Ia, Ib) && eq(A->c.back(), B->c.back(), Ia, Ib);
    case ref::Lambda: {
      auto *Aa = A->c[0], *Ba = B->c[0], *Af = A->c[1], *Bf = B->c[1];
      if (!Aa != !Ba || !Af != !Bf) return no("function header");
      int Id = Ids++;
      Ia = frame(Ea, Id);
      Ib = frame(Eb, Id);
      auto bind = [&](const ref::N *P, const ref::N *Q) {
        if (P == At) Target = Id;
        Ia->names.insert(P->s);
        Ib->names.insert(Q->s);
        return (P == At ? Y : P->s) == Q->s || no("parameter " + P->s + " became " + Q->s);
      };
      if (Aa && !bind(Aa, Ba)) return false;
      if (Af) {
        if (Af->c.size() != Bf->c.size() || Af->s != Bf->s) return no("formals");
        for (size_t I = 0; I < Af->c.size(); ++I)
          if (!bind(Af->c[I]->c[0], Bf->c[I]->c[0])) return false;
        for (size_t I = 0; I < Af->c.size(); ++I)
          if (!eq(Af->c[I]->c[1], Bf->c[I]->c[1], Ia, Ib)) return false;
      }
      return eq(A->c[2], B->c[2], Ia, Ib);
    }
    case ref::With: {
      if (!eq(A->c[0], B->c[0], Ea, Eb)) return false;
      int Id = Ids++;
      return eq(A->c[1], B->c[1], frame(Ea, Id, true), frame(Eb, Id, true));
    }
    default:
      if (A->c.size() != B->c.size()) return no("number of parts");
      for (size_t I = 0; I < A->c.size(); ++I)
        if (!eq(A->c[I], B->c[I], Ea, Eb)) return false;
      return true;
    }
  }
};

struct Ed {
  int b, e;
  Str t;
};
void p23(Ctx &X, const Str &T) {
  X.add(CTexts);
  Prog P(T);
  if (!P.P.ok()) return;
  S->open(DocUri, T);
  S->reset();
  std::set<Str> In{"z9", "e5"};
  for (auto &O : P.So.occs) In.insert(O.name);
  for (auto &B : P.So.binds)
    if (B.k != ref::Scoping::BWith) In.insert(B.name);
  std::vector<Str> News(In.begin(), In.end());
  static const std::vector<Str> Bad = {"", "1x", "a b", "if", "a.b", "x;", "${x}", "\"x\"", " x", "__curPos"};
  News.push_back("map");
  News.push_back("or");
  News.insert(News.end(), Bad.begin(), Bad.end());
  // Rename at \p At; \p B is the binding there, or -1.
  auto one = [&](int At, R2 Word, int B, const Str &What) {
    Value Pv = ask("textDocument/prepareRename", T, At);
    X.add(CRequests);
    auto *Po = Pv.getAsObject();
    auto *Pr = Po ? Po->get("result") : nullptr;
    bool Renamable = B >= 0 && P.So.binds[B].k != ref::Scoping::BWith;
    Str Head = esc(T) + " at " + std::to_string(At) + " (" + What + ")";
    if (!Pr && !(Po && Po->get("error"))) X.fail("prepare-answer", Head + ": " + cs::show(Pv));
    bool Prepared = Pr && Pr->getAsObject();
    if (Prepared && !Renamable) X.fail("prepare-refuse", Head + ": accepts to rename");
    if (Prepared && rangeOf(T, Pr) != Word) X.fail("prepare-range", Head + ": prepares " + sh(rangeOf(T, Pr)) + ", expected " + sh(Word));
    if (Renamable && !Prepared && P.So.binds[B].how == ref::Def::Plain) X.fail("prepare", Head + ": refuses to rename: " + cs::show(Pv));
    for (auto &Nw : News) {
      Str Nh = Head + " to " + esc(Nw) + ": ";
      Value V = ask("textDocument/rename", T, At, &Nw);
      X.add(CRequests);
      auto *O = V.getAsObject();
      if (!O) {
        X.fail("no-answer", Nh);
        continue;
      }
      if (O->get("error")) {
        X.add(CRefused);
        if (Nw == "z9" && Renamable && P.So.binds[B].how != ref::Def::InheritedFrom) X.fail("refused", Nh + "refused: " + cs::show(V));
        continue;
      }
      auto *R = O->getObject("result");
      auto *Ch = R ? R->getObject("changes") : nullptr;
      auto *L = Ch ? Ch->getArray(DocUri) : nullptr;
      if (!L || Ch->size() != 1) {
        X.fail("not-edits", Nh + cs::show(V));
        continue;
      }
      if (!Renamable) {
        X.fail("accepted", Nh + "gives edits where there is no binding to rename");
        continue;
      }
      std::vector<Ed> Es;
      bool Ok = true;
      for (auto &E : *L) {
        auto *Eo = E.getAsObject();
        R2 Rg = rangeOf(T, Eo ? Eo->get("range") : nullptr);
        auto Nt = Eo ? Eo->getString("newText") : std::nullopt;
        if (Rg.first < 0 || Rg.second < Rg.first || !Nt) Ok = false;
        else Es.push_back({Rg.first, Rg.second, Nt->str()});
      }
      std::stable_sort(Es.begin(), Es.end(), [](auto &A, auto &C) { return A.b < C.b || (A.b == C.b && A.e < C.e); });
      for (size_t I = 1; I < Es.size(); ++I)
        if (Es[I].b < Es[I - 1].e || (Es[I].b == Es[I - 1].b && Es[I].e == Es[I - 1].e)) Ok = false;
      if (!Ok) {
        X.fail("bad-edits", Nh + cs::show(V));
        continue;
      }
      Str N;
      int Q = 0;
      for (auto &E : Es) N += T.substr(Q, E.b - Q) + E.t, Q = E.e;
      N += T.substr(Q);
      X.outcome(N);
      Prog Pn(N);
      if (Pn.P.unspec) continue;
      if (!Pn.P.ok()) {
        X.fail("invalid", Nh + "gives " + esc(N) + ", which is no program: " + Pn.P.why);
        continue;
      }
      Alpha A{P.So.binds[B].at, P.So.binds[B].name, Nw};
      if (!A.eq(P.P.root, Pn.P.root, nullptr, nullptr)) X.fail("meaning", Nh + "gives " + esc(N) + ": " + A.Why);
      else if (A.Target < 0) X.fail("machinery", Nh + "the binding was not met");
    }
  };
  std::set<int> Asked;
  for (auto &O : P.So.occs) {
    if (O.name == "__curPos") continue;
    X.add(COccs);
    int B = O.k == ref::Scoping::Defined ? O.bind : -1;
    auto Ps = on(T, O.b, O.e);
    for (int At : Ps) Asked.insert(At);
    for (int At : {Ps.front(), Ps.back()}) one(At, {O.b, O.e}, B, Str(kind(O.k)) + " " + O.name);
  }
  for (size_t B = 0; B < P.So.binds.size(); ++B) {
    auto &D = P.So.binds[B];
    if (D.how == ref::Def::Inherited) continue;
    X.add(CBinds);
    for (auto &N : P.names(B)) {
      auto Ps = on(T, N.first, N.second);
      if (!Asked.count(Ps.front())) one(Ps.front(), N, B, "binding " + D.name);
      if (!Asked.count(Ps.back())) one(Ps.back(), N, B, "binding " + D.name);
    }
  }
  S->close(DocUri);
  S->reset();
}
/// Completion behind every variable occurrence.
void p25(Ctx &X, const Str &T) {
  X.add(CTexts);
  Prog P(T);
  if (!P.P.ok()) return;
  S->open(DocUri, T);
  S->reset();
  static const std::vector<Str> Globals = [] {
    std::vector<Str> R;
    for (auto &[N, I] : nixf::PrimOpsInfo)
      if (!I.Internal) R.push_back(N);
    for (auto *N : {"true", "false", "null", "derivation", "builtins"}) R.push_back(N);
    std::erase_if(R, [](auto &N) { return N.starts_with("__"); });
    std::sort(R.begin(), R.end());
    R.erase(std::unique(R.begin(), R.end()), R.end());
    return R;
  }();
  for (auto &[N, Env] : P.So.envOf) {
    if (!N || N->k != ref::Var || N->s == "__curPos" || N->s == "lib" || N->s == "pkgs") continue;
    X.add(COccs);
    std::map<Str, bool> Exp; // name -> global
    for (auto *E = Env; E; E = E->up)
      for (auto &[D, B] : E->defs)
        if (D.starts_with(N->s)) Exp.emplace(D, false);
    for (auto &G : Globals)
      if (G.starts_with(N->s)) Exp.emplace(G, true);
    Value V = ask("textDocument/completion", T, N->e);
    X.add(CRequests);
    Str Head = esc(T) + " at " + std::to_string(N->e) + " (behind " + N->s + "): ";
    auto *R = V.getAsObject() ? V.getAsObject()->getObject("result") : nullptr;
    auto *L = R ? R->getArray("items") : nullptr;
    if (!L) {
      X.fail("completion-answer", Head + cs::show(V));
      continue;
    }
    bool Inc = R->getBoolean("isIncomplete").value_or(false);
    std::map<Str, int> Got;
    Str All;
    for (auto &I : *L) {
      auto *O = I.getAsObject();
      auto La = O ? O->getString("label") : std::nullopt;
      if (!La) {
        X.fail("completion-item", Head + cs::show(I));
        continue;
      }
      Str Nm = La->str();
      All += Nm + " ";
      if (++Got[Nm] == 2) X.fail("twice", Head + Nm + " is offered twice");
      auto It = Exp.find(Nm);
      if (It == Exp.end()) X.fail("not-in-scope", Head + Nm + " is offered, and is not in scope");
      else if ((O->getInteger("kind").value_or(0) == 14) != It->second) X.fail("kind", Head + Nm + " has kind " + std::to_string(O->getInteger("kind").value_or(0)));
      auto Ins = O->getString("insertText");
      auto *Te = O->getObject("textEdit");
      if (Ins && *Ins != "" && *Ins != Nm) X.fail("insert", Head + Nm + " inserts " + Ins->str());
      if (Te && (Te->getString("newText") != llvm::StringRef(Nm) || rangeOf(T, Te->get("range")) != R2{N->b, N->e})) X.fail("edit", Head + cs::show(I));
    }
    X.outcome(N->s + ":" + All);
    for (auto &[D, G] : Exp)
      if (!Got.count(D) && !Inc) X.fail("missing", Head + D + " is in scope and not offered; offered: " + All);
    // A list that is cut short is asked for again as the name is typed on; it
    // must not be cut where a handful of names is all there is.
    if (Inc && Exp.size() <= 20) X.fail("cut", Head + "the list of " + std::to_string(Exp.size()) + " names is cut short");
    if (Inc && Got.empty()) X.fail("cut", Head + "the list is cut to nothing");
  }
  S->close(DocUri);
  S->reset();
}
} // namespace

int main(int argc, char **argv) {
  Pid = argv[1];
  Check C(Pid, argc - 1, argv + 1);
  Quick = C.quick();
  C.BudgetS = Quick ? 400 : 3000;
  C.HangS = 30;
  C.Counters = {"texts", "requests", "occurrences", "bindings", "renames_refused"};
  C.WorkerInit = [] {
    S = new cs::Session;
    S->initialize();
    S->reset();
  };
  auto add = [&](Space Sp) { C.Spaces.push_back(std::move(Sp)); };
  auto wrap = [](const std::vector<Str> &Ws, const std::vector<Str> &Is) {
    std::vector<Str> R;
    for (auto &W : Ws)
      for (auto &I : Is) {
        Str O;
        for (char Ch : W)
          if (Ch == '@') O += I;
          else O += Ch == 1 ? '@' : Ch;
        R.push_back(O);
      }
    return R;
  };
  auto forms = [&](int D) {
    sp::Forms F{sp::exprForms()};
    std::vector<Str> R;
    F.gen(D, R);
    return R;
  };
  sp::Terms ST{{"a", "b"}, sp::scopeForms()};
  if (Pid == "P22") {
    C.Rule = "Definition, references and highlights are requested from the real Controller at every character of every variable occurrence and binding name of every valid program of each space (and just behind it), and compared with the reference resolver's bindings and uses.";
    C.Assumptions = {"of several enclosing `with` any may be reported", "a name of `inherit` is taken as the occurrence it is, not as the binding it makes", "references are the uses without the binding itself, as the project's tests pin it", "variables named pkgs and lib are left to P35"};
  } else if (Pid == "P25") {
    C.Rule = "Completion is requested from the real Controller behind every variable of every valid program of each space, and compared with the names the reference resolver has in scope there and the global names.";
    C.Assumptions = {"the typed text is the whole variable, the caret behind it", "where more names match than a list holds, the list is marked incomplete and then need not hold all of them", "global names beginning with __ are internal and need not be offered", "names of `inherit` are not variables being typed", "names below pkgs and lib come from the worker and are left to P35"};
    auto re = [](Str Z) { // a -> aa, b -> ab, so that names begin with one another
      Str R;
      for (size_t I = 0; I < Z.size(); ++I)
        if ((Z[I] == 'a' || Z[I] == 'b') && !(I && word(Z[I - 1])) && !(I + 1 < Z.size() && word(Z[I + 1]))) R += "a", R += Z[I];
        else R += Z[I];
      return R;
    };
    std::vector<Str> Fs;
    for (auto &Z : sp::scopeForms()) Fs.push_back(re(Z));
    sp::Terms T2{{"a", "aa"}, Fs};
    add(sp::termSpace("terms1", "programs of nesting depth 1 over the scope forms, names beginning with one another", T2, 1));
    add(sp::chainSpace("chains2", "chains of 2 scope contexts", Fs, {"a"}, {"a", "ab", "m"}, 2));
    add(sp::chainSpace("chains3", "chains of 3 scope contexts", Fs, {"aa"}, {"a"}, 3));
    if (!Quick) {
      add(sp::chainSpace("chains3-two", "chains of 3 scope contexts with two fillings", Fs, {"a", "aa"}, {"a"}, 3));
      add(listSpace("forms2", "grammar forms nested twice", forms(2)));
    }
    std::vector<Str> Sp = wrap({"@: @", "let @ = 1; in @", "let @x = 1; @ = 2; in @", "let @x = 1; in with q; @", "@x: @y: @", "@x: @x: @x", "{ @, @x ? @ }: 1", "{ @ }@@x: @", "\xf0\x9f\x98\x80 @", "\"\xf0\x9f\x98\x80\" + (@x: @)", "[ @x@ ]", "@x: [@]", "@x: (@)", "@x: @.b", "@x: @+@", "@x: !@", "@x: \"${@}\"", "@x: { a = @; }", "@x: with @; @", "@x:\n  @\n", "@x: a: b: c: d: @", "rec { @x = @; @ = 1; }", "{ @x = @; }", "let inherit (@x) @; in @"}, {"a", "__a", "__", "_", "b", "ma", "map", "tr", "builtins", "o", "i", "a'", "is", "__add"});
    for (int K : {29, 30, 31, 40}) {
      Str A = "let ", B = "{ ";
      for (int I = 0; I < K; ++I) A += "zz" + std::to_string(I) + " = 1; ", B += (I ? ", zz" : "zz") + std::to_string(I);
      Sp.push_back(A + "in zz");
      Sp.push_back(B + " }: zz: zz");
      Sp.push_back(B + " }: " + B + " }: zz");
    }
    add(listSpace("special", "names of other shapes, many names, other places", Sp));
  } else {
    C.Rule = "Every occurrence and name of every binding of every valid program of each space is renamed through the real Controller to a fresh name, to every name of the program, to global names and to texts that are no names; the edited program must parse and be equal to the original up to that binding's name, by parallel resolution of both programs.";
    C.Assumptions = {"bindings made by `inherit (source) name` may be refused"};
  }
  C.Eval = [](Ctx &X, const Str &, const Str &T) { Pid == "P22" ? p22(X, T) : Pid == "P23" ? p23(X, T) : p25(X, T); };
  if (Pid == "P25") return C.run();
  add(sp::termSpace("terms1", "programs of nesting depth 1 over the scope forms", ST, 1));
  add(sp::chainSpace("chains2", "chains of 2 scope contexts", sp::scopeForms(), {"a", "b"}, Quick && Pid == "P23" ? std::vector<Str>{"a"} : std::vector<Str>{"a", "b"}, 2));
  if (!Quick) {
    add(sp::chainSpace("chains3", "chains of 3 scope contexts", sp::scopeForms(), {"b"}, {"a"}, 3));
    add(listSpace("forms2", "grammar forms nested twice", forms(2)));
  }
  add(listSpace("forms1", "grammar forms", forms(1)));
  {
    auto I = sp::bindItems();
    std::vector<Str> Ps;
    for (auto &A : I)
      for (auto &B : I)
        if (!Quick || A.size() + B.size() < 18) Ps.push_back(A + " " + B);
    add(listSpace("bindings", "pairs of bindings in a let and a recursive set", wrap({"let @ in [ a b ]", "rec { @ r = [ a b ]; }", "let { @ r = a; }"}, Ps)));
  }
  add(listSpace("tight", "names beside punctuation, operators, other alphabets and lines", wrap({"let @=1;in[(@)@@.x]", "@:@+@", "x:@:x+@-x", "{@,x?@}:@", "@\1{x}:x@.y", "rec{@=1;x=@;}", "\"\xf0\x9f\x98\x80\"+(@: @)", "\n\xc3\xa9/*\xc3\xa9*/\nlet @ = \"\xc3\xa9\"; in\n  @", "let @ = 1; in \"\xc3\xa9${@}\"", "let inherit(@)x;in x", "with@;y", "(with @;y)", "let @=1;in!@", "let @=1;in-@", "let @=1;in @//@++@", "let @ = @; in with @; q", "let \"@\" = 1; in @", "let ${\"@\"} = 1; in @", "rec { \"@\" = 1; x = @; }", "let @.c = 1; @.d = 2; in @", "let @ = { c = 1; }; @.d = @; in @", "{ ${@} = 1; }", "let @ = 1; in { inherit @; }", "let @ = 1; y = 2; in { inherit @ y; }", "let @ = 1; y = 2; in { inherit y @; }", "let @ = 1; in { inherit @/*c*/; }", "let inherit (x) @; in @", "let inherit (x) @ y; in @", "let inherit (x) \"@\"; in @", "@: { inherit @; a = 1; }", "@: let inherit @; in @", "@: y: let inherit @ y; in @", "@: rec { inherit @; y = @; }", "@: { inherit \"@\"; }", "[@map]", "builtins.@", "@:@/x", "@:@+x/y", "@:[1@ 1.@]", "@:x:[@/x]", "let inherit\"@\"; in @", "let inherit a\"@\"b; in @", "let inherit a\"@\"c q; inherit b; in q", "let\"@\"=1;in[@]", "q:{inherit q\"@\"b;}", "@: q: { inherit q\"@\"b; }", "@: q: rec { inherit q @; b = @; }"}, {"a", "a'", "a-b", "_", "or", "map", "q"})));
  return C.run();
}
