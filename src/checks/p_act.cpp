// P29-P33, P36, P39: code actions, asked of the real Controller at every caret
// and node of a text and applied by a reference editor.
#include "checks/nixfutil.h"
#include "checks/nixspaces.h"
#include "checks/scopeutil.h"
#include "checks/textref.h"
#include "ctl/session.h"
#include "ref/eval.h"
#include "ref/json.h"
#include "ref/resolve.h"

#include <nixf/Sema/VariableLookup.h>

using namespace mc;
using cs::Array;
using cs::Object;
using cs::Value;

namespace {
Str Pid;
bool Quick = true;
enum { CTexts, CRequests, CActions, CJudged, CBeyond, CCompared };
const Str DocUri = "file:///base/t.nix";
cs::Session *S = nullptr;

struct Ed {
  int b = 0, e = 0;
  Str t;
};
struct Act {
  Str Title, Kind;
  std::vector<Ed> Es;               ///< edits of the document
  std::map<Str, Str> Files;         ///< files it creates
  Str Noogle;
  bool Preferred = false;
  int qb = 0, qe = 0;               ///< first request that gave it
  Str Key;
};
Str first(const Str &T, size_t N = 60) { return T.substr(0, N); }

/// The offset of a position that must exist in \p T; -1 if it does not.
int off(const Str &T, const Value *P) {
  auto *O = P ? P->getAsObject() : nullptr;
  if (!O) return -1;
  auto L = O->getInteger("line"), C = O->getInteger("character");
  if (!L || !C) return -1;
  auto R = tr::offset(T, *L, *C, false);
  return R.empty() ? -1 : (int)R[0];
}
bool edit(const Str &T, const Value &V, Ed &E, Str &Why) {
  auto *O = V.getAsObject();
  auto *R = O ? O->getObject("range") : nullptr;
  if (!R || !O->getString("newText")) return Why = "not an edit: " + cs::show(V), false;
  E.b = off(T, R->get("start"));
  E.e = off(T, R->get("end"));
  E.t = O->getString("newText")->str();
  if (E.b < 0 || E.e < E.b) return Why = "range outside the document: " + cs::show(V), false;
  return true;
}
bool disjoint(std::vector<Ed> &Es, Str &Why) {
  std::stable_sort(Es.begin(), Es.end(), [](auto &A, auto &B) { return A.b < B.b || (A.b == B.b && A.e < B.e); });
  for (size_t I = 1; I < Es.size(); ++I)
    if (Es[I].b < Es[I - 1].e || (Es[I].b == Es[I - 1].b && Es[I].e == Es[I - 1].e && Es[I].b != Es[I].e)) return Why = "edits overlap", false;
  return true;
}
Str applyEdits(const Str &T, const std::vector<Ed> &Es) {
  Str R;
  int P = 0;
  for (auto &E : Es) R += T.substr(P, E.b - P) + E.t, P = E.e;
  return R + T.substr(P);
}
/// Reads an action. False: it is not well-formed.
bool read(const Str &T, const Value &V, Act &A, Str &Why) {
  auto *O = V.getAsObject();
  if (!O || !O->getString("title")) return Why = "not an action", false;
  A.Title = O->getString("title")->str();
  A.Kind = O->getString("kind").value_or("").str();
  A.Preferred = O->getBoolean("isPreferred").value_or(false);
  if (auto *D = O->getObject("data"))
    if (auto U = D->getString("noogleUrl")) A.Noogle = U->str();
  if (auto *W = O->getObject("edit")) {
    if (auto *Ch = W->getObject("changes"))
      for (auto &[K, L] : *Ch) {
        if (K.str() != DocUri) return Why = "edits another document: " + K.str(), false;
        if (!L.getAsArray()) return Why = "no list of edits", false;
        for (auto &E : *L.getAsArray()) {
          A.Es.emplace_back();
          if (!edit(T, E, A.Es.back(), Why)) return false;
        }
      }
    if (auto *Dc = W->getArray("documentChanges"))
      for (auto &D : *Dc) {
        auto *Do = D.getAsObject();
        if (!Do) return Why = "bad document change", false;
        if (auto K = Do->getString("kind")) {
          auto U = Do->getString("uri");
          if (*K != "create" || !U) return Why = "unexpected " + K->str(), false;
          if (!A.Files.emplace(U->str(), "").second) return Why = "file created twice", false;
          continue;
        }
        auto *Td = Do->getObject("textDocument");
        auto *L = Do->getArray("edits");
        auto U = Td ? Td->getString("uri") : std::nullopt;
        if (!U || !L) return Why = "bad text document edit", false;
        if (*U == DocUri) {
          for (auto &E : *L) {
            A.Es.emplace_back();
            if (!edit(T, E, A.Es.back(), Why)) return false;
          }
          continue;
        }
        auto F = A.Files.find(U->str());
        if (F == A.Files.end()) return Why = "edits another document: " + U->str(), false;
        std::vector<Ed> Es;
        for (auto &E : *L) {
          Es.emplace_back();
          if (!edit(F->second, E, Es.back(), Why)) return false;
        }
        if (!disjoint(Es, Why)) return false;
        F->second = applyEdits(F->second, Es);
      }
    if (A.Es.empty()) return Why = "no edits", false;
  } else if (A.Noogle.empty())
    return Why = "neither edits nor a link", false;
  return disjoint(A.Es, Why);
}
Value ask(const Str &T, int B, int E, const std::vector<Str> *Only = nullptr) {
  auto P = tr::position(T, B), Q = tr::position(T, E);
  Object Cx{{"diagnostics", Array{}}};
  if (Only) {
    Array A;
    for (auto &O : *Only) A.push_back(O);
    Cx["only"] = std::move(A);
  }
  Value V = S->request("textDocument/codeAction", Object{{"textDocument", Object{{"uri", DocUri}}}, {"range", cs::range(P.first, P.second, Q.first, Q.second)}, {"context", std::move(Cx)}});
  S->reset();
  return V;
}
void opened(const Str &T) {
  S->open(DocUri, T);
  S->reset();
}
void closed() {
  S->close(DocUri);
  S->reset();
}
void ranges(const nixf::Node *N, std::set<std::pair<int, int>> &R) {
  if (!N) return;
  R.insert({(int)N->lCur().offset(), (int)N->rCur().offset()});
  for (auto *C : N->children()) ranges(C, R);
}
/// every caret, and the extent of every node
std::set<std::pair<int, int>> requests(const Str &T) {
  std::set<std::pair<int, int>> R;
  for (int I = 0; I <= (int)T.size(); ++I)
    if (tr::boundary(T, I)) R.insert({I, I});
  std::vector<nixf::Diagnostic> Ds;
  auto AST = nixf::parse(T, Ds);
  ranges(AST.get(), R);
  R.insert({0, (int)T.size()});
  return R;
}
/// the start of every node
std::set<std::pair<int, int>> startsOf(const Str &T) {
  std::set<std::pair<int, int>> N, R;
  std::vector<nixf::Diagnostic> Ds;
  auto AST = nixf::parse(T, Ds);
  ranges(AST.get(), N);
  for (auto &E : N) R.insert({E.first, E.first});
  return R;
}
/// The distinct actions with a title that \p Want accepts.
std::vector<Act> actions(Ctx &X, const Str &T, const std::set<std::pair<int, int>> &Rs, const std::function<bool(const Str &)> &Want) {
  std::vector<Act> R;
  std::set<Str> Seen;
  opened(T);
  for (auto &[B, E] : Rs) {
    X.add(CRequests);
    Value V = ask(T, B, E);
    if (!S->Thrown.empty()) {
      X.fail("throws", "request at " + std::to_string(B) + "-" + std::to_string(E) + ": " + S->Thrown);
      S->Thrown.clear();
      break;
    }
    auto *O = V.getAsObject();
    auto *L = O ? O->getArray("result") : nullptr;
    if (!L) {
      X.fail("no-answer", "request at " + std::to_string(B) + "-" + std::to_string(E) + ": " + cs::show(V));
      break;
    }
    for (auto &A : *L) {
      auto *Ao = A.getAsObject();
      auto Ti = Ao ? Ao->getString("title") : std::nullopt;
      if (!Ti || !Want(Ti->str())) continue;
      Str K = cs::show(A);
      if (!Seen.insert(K).second) continue;
      Act N;
      N.Key = K;
      N.qb = B;
      N.qe = E;
      Str Why;
      if (!read(T, A, N, Why)) {
        X.fail("malformed " + first(Ti->str(), 20), Why + ": " + K);
        continue;
      }
      X.add(CActions);
      R.push_back(std::move(N));
    }
  }
  closed();
  return R;
}
bool starts(const Str &A, const char *B) { return A.rfind(B, 0) == 0; }

/// The comments of a text whose comments are written /*x*/ or #x\n, x one letter or digit.
std::map<Str, int> comments(const Str &T) {
  std::map<Str, int> R;
  for (size_t I = 0; I + 2 < T.size(); ++I) {
    if (T[I] == '#' && T[I + 2] == '\n' && isalnum((unsigned char)T[I + 1])) ++R[T.substr(I, 3)];
    if (I + 4 < T.size() && T[I] == '/' && T[I + 1] == '*' && T[I + 3] == '*' && T[I + 4] == '/') ++R[T.substr(I, 5)];
  }
  return R;
}

struct Program {
  Str T;
  ref::Parsed P;
  Str Norm;
  bool Cur = false;
  bool Have = false;
  explicit Program(const Str &T) : T(T), P(ref::parse(T)) {}
  const Str &norm() {
    if (!Have) {
      ref::Eval Ev;
      Ev.builtin = su::builtin;
      Norm = Ev.norm(P.root);
      Cur = Ev.curPos;
      Have = true;
    }
    return Norm;
  }
};

void walk(const ref::N *N, const std::function<void(const ref::N *)> &F, std::set<const ref::N *> &Seen) {
  if (!N || !Seen.insert(N).second) return;
  F(N);
  for (auto *C : N->c) walk(C, F, Seen);
}

/// P29-P31: the program stays valid with the same value.
void same(Ctx &X, const Str &T, const std::function<bool(const Str &)> &Want, const std::set<std::pair<int, int>> *Rs = nullptr) {
  X.add(CTexts);
  Program P(T);
  if (!P.P.ok()) return;
  auto R = Rs ? *Rs : requests(T);
  for (auto &A : actions(X, T, R, Want)) {
    Str N = applyEdits(T, A.Es);
    Str How = A.Title + " (asked at " + std::to_string(A.qb) + "-" + std::to_string(A.qe) + "):\n  " + esc(T) + "\n  becomes " + esc(N);
    Str K = first(A.Title, 26);
    X.add(CJudged);
    if (!tr::utf8(N) && tr::utf8(T)) {
      X.fail("utf8 " + K, How);
      continue;
    }
    Program Q(N);
    if (Q.P.unspec) continue;
    if (!Q.P.ok()) {
      X.fail("invalid " + K, How + "\n  which is not a valid program: " + Q.P.why);
      continue;
    }
    auto Ca = comments(T), Cb = comments(N);
    for (auto &[C, M] : Ca)
      if (Cb[C] < M) {
        X.fail("comment " + K, How + "\n  which loses the comment " + esc(C));
        break;
      }
    if (P.norm().empty() || Q.norm().empty() || P.Cur) {
      X.add(CBeyond);
      continue;
    }
    X.add(CCompared);
    X.outcome(A.Title + P.Norm);
    if (P.Norm == Q.Norm) continue;
    Str D = "\n  from " + P.Norm + "\n  to   " + Q.Norm;
    if (starts(A.Title, "Convert `with`")) {
      // documented by the project's tests: a name that several `with` could
      // provide is taken from the innermost (known finding)
      auto F = [&](Program &Z) {
        ref::Eval Ev;
        Ev.builtin = su::builtin;
        Ev.innerWith = true;
        return Ev.norm(Z.P.root);
      };
      Str U = F(P), V = F(Q);
      if (!U.empty() && U == V) {
        X.fail("meaning " + K, How + D, "with-fallthrough");
        continue;
      }
    }
    if (A.Title == "Convert to `inherit`") {
      // pinned by the project's tests: a binding of a recursive set that refers
      // to itself (and so has no value) is turned into an inherit of the outer name
      std::set<const ref::N *> Seen;
      bool Self = false;
      walk(P.P.root, [&](const ref::N *M) {
        bool Rec = (M->k == ref::Attrs && M->s == "rec") || M->k == ref::Let || M->k == ref::LegacyLet;
        if (!Rec) return;
        for (auto *C : M->c)
          if (C && C->k == ref::Binding && C->b == A.Es[0].b && C->e == A.Es[0].e && C->c[1] && C->c[1]->k == ref::Var) Self = true;
      }, Seen);
      if (Self) {
        X.fail("meaning " + K, How + D, "inherit-in-rec");
        continue;
      }
    }
    X.fail("meaning " + K, How + D);
  }
}

/// P32
void p32(Ctx &X, const Str &T) {
  X.add(CTexts);
  Program P(T);
  if (!P.P.ok()) return;
  auto Want = [](const Str &Ti) { return starts(Ti, "Extract to ") || starts(Ti, "add `"); };
  for (auto &A : actions(X, T, requests(T), Want)) {
    Str N = applyEdits(T, A.Es);
    Str How = A.Title + " (asked at " + std::to_string(A.qb) + "-" + std::to_string(A.qe) + "):\n  " + esc(T) + "\n  becomes " + esc(N);
    for (auto &[U, C] : A.Files) How += "\n  with " + U + ": " + esc(C);
    X.add(CJudged);
    Program Q(N);
    if (Q.P.unspec) continue;
    if (starts(A.Title, "add `")) {
      if (!Q.P.ok()) {
        X.fail("invalid add", How + "\n  which is not a valid program: " + Q.P.why);
        continue;
      }
      // The asked-for occurrence, and the innermost function around it.
      ref::Scoping So;
      So.builtin = su::builtin;
      So.run(P.P.root);
      Str Name;
      int ob = -1;
      for (auto &O : So.occs)
        if (O.b <= A.qb && A.qe <= O.e && !O.inherited) Name = O.name, ob = O.b;
      ref::N *Lam = nullptr;
      std::set<const ref::N *> Seen;
      walk(P.P.root, [&](const ref::N *M) {
        if (M->k == ref::Lambda && M->b <= ob && ob < M->e && (!Lam || M->b > Lam->b || M->e < Lam->e)) Lam = const_cast<ref::N *>(M);
      }, Seen);
      if (Name.empty() || A.Title != "add `" + Name + "` to formals") {
        X.fail("add-name", How + "\n  asked for " + Name);
        continue;
      }
      for (auto &O : So.occs)
        if (O.b == ob && O.k != ref::Scoping::Undefined) X.fail("add-defined", How + "\n  " + Name + " is defined");
      if (!Lam || !Lam->c[1]) {
        X.fail("add-lambda", How + "\n  there is no function with formals around it");
        continue;
      }
      // The same program with the formal in its tree.
      Program W(T);
      ref::N *WL = nullptr;
      Seen.clear();
      walk(W.P.root, [&](const ref::N *M) {
        if (M->k == ref::Lambda && M->b == Lam->b && M->e == Lam->e) WL = const_cast<ref::N *>(M);
      }, Seen);
      ref::N *Id = W.P.A->node(ref::Id, 0, 0, Name, {});
      WL->c[1]->c.push_back(W.P.A->node(ref::Formal, 0, 0, Name, {Id, nullptr}));
      if (W.norm().empty() || Q.norm().empty()) {
        X.add(CBeyond);
        continue;
      }
      X.add(CCompared);
      X.outcome(W.Norm);
      if (W.Norm != Q.Norm) {
        X.fail("add-meaning", How + "\n  expected " + W.Norm + "\n  got      " + Q.Norm);
        continue;
      }
      // Nothing else changes: every other name resolves as before.
      ref::Scoping Sn;
      Sn.builtin = su::builtin;
      Sn.run(Q.P.root);
      auto map = [&](int O) { return O < A.Es[0].b ? O : O + (int)A.Es[0].t.size(); };
      auto show = [&](ref::Scoping &Z, ref::Scoping::Occ &O, bool M) {
        Str R = std::to_string((int)O.k);
        if (O.k == ref::Scoping::Defined) R += "@" + std::to_string(M ? map(Z.binds[O.bind].at->b) : Z.binds[O.bind].at->b);
        for (int V : O.withs) R += "," + std::to_string(M ? map(Z.binds[V].at->b) : Z.binds[V].at->b);
        return R;
      };
      std::map<int, Str> Ro;
      std::map<int, Str> Rn;
      for (auto &O : So.occs)
        if (!(O.name == Name && O.k == ref::Scoping::Undefined)) Ro[map(O.b)] = O.name + show(So, O, true);
      for (auto &O : Sn.occs)
        if (Ro.count(O.b)) Rn[O.b] = O.name + show(Sn, O, false);
      if (Ro != Rn) X.fail("add-scope", How + "\n  another name resolves differently");
      continue;
    }
    if (A.Files.size() != 1) {
      X.fail("extract-files", How + "\n  creates " + std::to_string(A.Files.size()) + " files");
      continue;
    }
    auto &[U, C] = *A.Files.begin();
    auto Ur = tr::uri(U);
    Str Path = Ur.Body;
    if (!starts(U, "file:///base/") || Path.rfind('/') != 5) {
      X.fail("extract-place", How + "\n  not beside the document");
      continue;
    }
    Program F(C);
    if (F.P.unspec) continue;
    if (!Q.P.ok() || !F.P.ok()) {
      X.fail("invalid extract", How + "\n  which does not parse: " + Q.P.why + F.P.why);
      continue;
    }
    auto Ca = comments(T), Cb = comments(N);
    for (auto &[K, M] : comments(C)) Cb[K] += M;
    for (auto &[K, M] : Ca)
      if (Cb[K] < M) {
        X.fail("comment extract", How + "\n  which loses the comment " + esc(K));
        break;
      }
    ref::Eval Ev;
    Ev.builtin = su::builtin;
    Ev.files[Path] = F.P.root;
    Str V = Ev.norm(Q.P.root);
    if (P.norm().empty() || V.empty() || P.Cur) {
      X.add(CBeyond);
      continue;
    }
    X.add(CCompared);
    X.outcome(P.Norm);
    if (V == P.Norm) continue;
    // The extent of a chain of pipes is P03's known finding: read so, the value is kept.
    ref::Parsed Pp = ref::parse(T, true), Pn = ref::parse(N, true), Pf = ref::parse(C, true);
    ref::Eval E0, E1;
    E0.builtin = E1.builtin = su::builtin;
    if (Pp.ok() && Pn.ok() && Pf.ok()) {
      E1.files[Path] = Pf.root;
      Str U0 = E0.norm(Pp.root), U1 = E1.norm(Pn.root);
      if (U0 != P.Norm && !U0.empty() && U0 == U1) {
        X.fail("meaning extract", How + "\n  from " + P.Norm + "\n  to   " + V, "pipe-associativity");
        continue;
      }
    }
    X.fail("meaning extract", How + "\n  from " + P.Norm + "\n  to   " + V);
  }
}


/// P33: does the Nix value denote the JSON value?
bool denotes(ref::Eval &E, ref::Eval::Value *V, const rj::V &J, Str &Why) {
  using E_ = ref::Eval;
  switch (J.k) {
  case rj::Null:
    if (V->k == E_::VPrim && V->s == "null") return true;
    return Why = "null expected", false;
  case rj::Bool:
    if (V->k == E_::VPrim && V->s == (J.b ? "true" : "false")) return true;
    return Why = "boolean expected", false;
  case rj::Num: {
    bool Int = J.isInt();
    errno = 0;
    long long I = Int ? strtoll(J.s.c_str(), nullptr, 10) : 0;
    if (Int && errno) Int = false;
    if (Int) {
      if (V->k == E_::VInt && V->s == std::to_string(I)) return true;
      return Why = "integer " + J.s + " expected", false;
    }
    double D = strtod(J.s.c_str(), nullptr), G;
    if (V->k == E_::VFloat) G = strtod(V->s.c_str(), nullptr);
    else if (V->k == E_::VInt) G = (double)strtoll(V->s.c_str(), nullptr, 10);
    else return Why = "number " + J.s + " expected", false;
    if (D == G) return true;
    return Why = "number " + J.s + " expected, got " + V->s, false;
  }
  case rj::Str:
    if (V->k == E_::VStr && V->e.empty() && V->s == J.s) return true;
    return Why = "string " + esc(J.s) + " expected, got " + esc(V->s), false;
  case rj::Arr:
    if (V->k != E_::VList || V->e.size() != J.a.size()) return Why = "list of " + std::to_string(J.a.size()) + " expected", false;
    for (size_t I = 0; I < J.a.size(); ++I)
      if (!denotes(E, E.force(V->e[I]), J.a[I], Why)) return false;
    return true;
  case rj::Obj: {
    std::map<Str, const rj::V *> M;
    for (auto &[K, W] : J.o) M[K] = &W;
    if (V->k != E_::VSet || !V->dyn.empty() || V->a.size() != M.size()) return Why = "set of " + std::to_string(M.size()) + " attributes expected", false;
    for (auto &[K, W] : M) {
      auto It = V->a.find(K);
      if (It == V->a.end()) return Why = "attribute " + esc(K) + " is missing", false;
      if (!denotes(E, E.force(It->second), *W, Why)) return false;
    }
    return true;
  }
  }
  return false;
}
/// \p J with the numbers that only lack JSON's form (01, +1, .5, 1.) put into it.
Str lenient(const Str &J) {
  static const Str C = "0123456789+-.eE";
  Str R;
  for (size_t I = 0; I < J.size();) {
    size_t E = I;
    if (J[I] == '"') {
      for (++E; E < J.size() && J[E] != '"'; ++E)
        if (J[E] == '\\') ++E;
      E = std::min(J.size(), E + 1);
      R += J.substr(I, E - I);
    } else if (C.find(J[I]) != Str::npos) {
      while (E < J.size() && C.find(J[E]) != Str::npos) ++E;
      Str N = J.substr(I, E - I);
      char *P;
      double D = strtod(N.c_str(), &P);
      char B[40];
      snprintf(B, sizeof B, "%.17g", D);
      R += *P ? N : Str(B);
    } else
      R += J[E++];
    I = E;
  }
  return R;
}
/// The document is a JSON text, possibly with Nix around it (marked by \x01).
void p33(Ctx &X, const Str &Case) {
  Str T;
  std::vector<int> Marks;
  for (char C : Case)
    if (C == 1) Marks.push_back(T.size());
    else T += C;
  int B = Marks.empty() ? 0 : Marks[0], E = Marks.empty() ? (int)T.size() : Marks[1];
  X.add(CTexts);
  Str J = T.substr(B, E - B);
  std::optional<rj::V> V;
  Str Why;
  try {
    V = rj::Reader(J).all();
  } catch (rj::Err &Er) {
    Why = Er.what();
    try {
      V = rj::Reader(lenient(J)).all();
    } catch (rj::Err &) {
    }
  }
  for (auto &A : actions(X, T, {{B, E}}, [](const Str &Ti) { return Ti == "Convert JSON to Nix"; })) {
    X.add(CJudged);
    Str N = A.Es[0].t;
    Str How = esc(T) + " [" + std::to_string(B) + "," + std::to_string(E) + ") becomes " + esc(N);
    if (A.Es.size() != 1 || A.Es[0].b != B || A.Es[0].e != E) {
      X.fail("json-range", How + ": the selection is not what is replaced");
      continue;
    }
    if (!V) {
      if (Why.find("surrogate") == Str::npos) X.fail("json-invalid", How + ": offered for what is not JSON: " + Why);
      continue;
    }
    Program Q(N);
    if (Q.P.unspec) continue;
    if (!Q.P.ok()) {
      X.fail("json-parse", How + "\n  which is not a valid expression: " + Q.P.why);
      continue;
    }
    ref::Eval Ev;
    Ev.builtin = su::builtin;
    Ev.es.emplace_back();
    X.add(CCompared);
    X.outcome(J);
    if (!denotes(Ev, Ev.eval(Q.P.root, &Ev.es.back()), *V, Why)) X.fail("json-value", How + "\n  " + Why);
  }
}

/// P36
bool staticName(const ref::N *M, Str &S) {
  if (M->k == ref::NameId) return S = M->s, true;
  if (M->k != ref::NameStr) return false;
  ref::Eval Ev;
  Ev.es.emplace_back();
  ref::Eval::Value *D;
  for (auto *C : M->c[0]->c)
    if (C->k != ref::Text) return false;
  return Ev.attrName(M, &Ev.es.back(), S, D);
}
void p36(Ctx &X, const Str &T) {
  X.add(CTexts);
  Program P(T);
  if (!P.P.ok()) return;
  struct Sel {
    int b, e, dflt;
    bool Lib = false;
    std::vector<Str> Path;
  };
  std::vector<Sel> Ss;
  std::set<const ref::N *> Seen;
  walk(P.P.root, [&](const ref::N *M) {
    if (M->k != ref::Select) return;
    Sel S{M->b, M->e, M->e};
    S.Lib = M->c[0]->k == ref::Var && M->c[0]->s == "lib";
    S.Path = {"lib"};
    for (auto *C : M->c[1]->c) {
      Str Nm;
      if (!staticName(C, Nm)) S.Lib = false;
      S.Path.push_back(Nm);
    }
    if (M->c[2]) S.dflt = M->c[2]->b;
    Ss.push_back(S);
  }, Seen);
  opened(T);
  for (auto &[B, E] : requests(T)) {
    X.add(CRequests);
    Value V = ask(T, B, E);
    auto *O = V.getAsObject();
    auto *L = O ? O->getArray("result") : nullptr;
    Str At = esc(T) + " at " + std::to_string(B) + "-" + std::to_string(E) + ": ";
    if (!L) {
      X.fail("no-answer", At);
      break;
    }
    std::vector<const Object *> Got;
    for (auto &A : *L)
      if (auto *Ao = A.getAsObject())
        if (Ao->getString("title").value_or("").starts_with("Open Noogle") || (Ao->getObject("data") && Ao->getObject("data")->get("noogleUrl"))) Got.push_back(Ao);
    if (Got.size() > 1) X.fail("noogle-twice", At + "offered twice");
    // the selections around the request, the innermost one, and whether the
    // request is at an edge where several nodes meet
    const Sel *In = nullptr;
    std::vector<const Sel *> Touch;
    bool Edge = false;
    for (auto &S : Ss)
      if (S.b <= B && E <= S.e) {
        Touch.push_back(&S);
        if (B == S.b || E == S.e || B >= S.dflt) Edge = true;
        if (!In || (S.b >= In->b && S.e <= In->e)) In = &S;
      }
    if (Got.empty()) {
      if (In && In->Lib && B >= In->b && E < In->dflt && !Edge) X.fail("noogle-missing", At + "no link");
      if (In && In->Lib && B == In->b && E == In->b && Touch.size() == 1) X.fail("noogle-missing", At + "no link at its start");
      if (In && In->Lib && B == In->b && E == In->e && Touch.size() == 1 && In->dflt == In->e) X.fail("noogle-missing", At + "no link for the whole selection");
      continue;
    }
    X.add(CJudged);
    auto *D = Got[0]->getObject("data");
    auto U = D ? D->getString("noogleUrl") : std::nullopt;
    if (!U) {
      X.fail("noogle-url", At + "no address");
      continue;
    }
    Str Url = U->str();
    bool Ok = false;
    Str Exp;
    for (auto *S : Touch)
      if (S->Lib) {
        Exp = "https://noogle.dev/f";
        for (auto &Sg : S->Path) {
          Exp += "/";
          for (unsigned char C : Sg) {
            char H[8];
            if (isalnum(C) || C == '-' || C == '_' || C == '.' || C == '~') Exp += (char)C;
            else snprintf(H, sizeof H, "%%%02X", C), Exp += H;
          }
        }
        // any correct escaping: the same pieces, decoded, and only characters an address may have
        auto Split = [](const Str &Z) {
          std::vector<Str> R{""};
          for (char C : Z)
            if (C == '/') R.push_back("");
            else R.back() += C;
          for (auto &Y : R) Y = tr::decode(Y);
          return R;
        };
        bool Legal = true;
        for (size_t I = 0; I < Url.size(); ++I) {
          unsigned char C = Url[I];
          if (C == '%') Legal &= I + 2 < Url.size() && isxdigit((unsigned char)Url[I + 1]) && isxdigit((unsigned char)Url[I + 2]);
          else Legal &= isalnum(C) || (C && strchr("-._~!$&'()*+,;=:@/", C));
        }
        if (Legal && Split(Url) == Split(Exp)) Ok = true;
      }
    X.outcome(Url);
    if (!Ok) X.fail("noogle-address", At + "links to " + Url + (Exp.empty() ? " where no library function is selected" : ", not " + Exp));
    // resolving it opens that address
    Object Full = *Got[0];
    S->reset();
    size_t N0 = 0;
    Value Rv = S->request("codeAction/resolve", Value(std::move(Full)));
    bool Shown = false;
    for (auto &M : S->Out)
      if (auto *Mo = M.getAsObject(); Mo && Mo->getString("method").value_or("") == "window/showDocument") {
        auto *Pr = Mo->getObject("params");
        ++N0;
        Shown = Pr && Pr->getString("uri").value_or("") == Url;
      }
    S->reset();
    if (!Shown || N0 != 1) X.fail("noogle-open", At + "resolving the action does not open " + Url);
    if (auto *Ro = Rv.getAsObject(); !Ro || !Ro->get("result")) X.fail("noogle-resolve", At + "no answer to codeAction/resolve");
  }
  closed();
}

/// P39
void p39(Ctx &X, const Str &T) {
  X.add(CTexts);
  std::vector<nixf::Diagnostic> Ds;
  auto AST = nixf::parse(T, Ds);
  if (AST) {
    nixf::VariableLookupAnalysis V(Ds);
    V.runOnAST(*AST);
  }
  opened(T);
  auto one = [&](int B, int E) {
    X.add(CRequests);
    Str At = esc(T) + " at " + std::to_string(B) + "-" + std::to_string(E) + ": ";
    Value V = ask(T, B, E);
    auto *O = V.getAsObject();
    auto *L = O ? O->getArray("result") : nullptr;
    if (!L) return X.fail("no-answer", At + cs::show(V)), false;
    std::multiset<Str> Fixes;
    for (auto &A : *L) {
      X.add(CActions);
      Act N;
      Str Why;
      if (!read(T, A, N, Why)) {
        X.fail("malformed", At + Why + ": " + cs::show(A));
        continue;
      }
      X.outcome(N.Title + esc(T));
      if (N.Title.empty()) X.fail("no-title", At + cs::show(A));
      if (N.Kind != "quickfix" && N.Kind != "refactor" && N.Kind != "refactor.rewrite") X.fail("kind", At + N.Title + " has kind " + N.Kind);
      X.add(CJudged);
      if (N.Kind == "quickfix") {
        if (starts(N.Title, "add `") && N.Title.find("to formals") != Str::npos) continue;
        Str K = N.Title + (N.Preferred ? "!" : "");
        for (auto &Ee : N.Es) K += "|" + std::to_string(Ee.b) + "," + std::to_string(Ee.e) + "," + Ee.t;
        Fixes.insert(K);
        continue;
      }
      if (N.Es.empty()) continue;
      if (N.Es.front().b > E || N.Es.back().e < B) X.fail("elsewhere", At + N.Title + " changes " + std::to_string(N.Es.front().b) + "-" + std::to_string(N.Es.back().e));
    }
    std::multiset<Str> Must, May;
    for (auto &D : Ds) {
      int b = D.range().lCur().offset(), e = D.range().rCur().offset();
      bool Touch = b <= E && B <= e;
      if (!Touch) continue;
      bool Over = (b < E && B < e) || (B == E && b <= B && (B < e || b == e)) || (b == e && B <= b && b < E);
      for (auto &F : D.fixes()) {
        std::vector<Ed> Es;
        for (auto &Te : F.edits()) Es.push_back({(int)Te.oldRange().lCur().offset(), (int)Te.oldRange().rCur().offset(), Str(Te.newText())});
        std::stable_sort(Es.begin(), Es.end(), [](auto &A, auto &C) { return A.b < C.b || (A.b == C.b && A.e < C.e); });
        Str K = F.message() + (D.kind() == nixf::Diagnostic::DK_UnusedDefLet ? "!" : "");
        for (auto &Ee : Es) K += "|" + std::to_string(Ee.b) + "," + std::to_string(Ee.e) + "," + Ee.t;
        May.insert(K);
        if (Over) Must.insert(K);
      }
    }
    for (auto &K : Must)
      if (Fixes.count(K) < Must.count(K)) X.fail("missing-fix", At + "not offered: " + esc(K));
    for (auto &K : Fixes)
      if (Fixes.count(K) > May.count(K)) X.fail("extra-fix", At + "offered: " + esc(K));
    if (B == E || (B == 0 && E == (int)T.size())) {
      // the kinds asked for
      for (auto &Only : std::vector<std::vector<Str>>{{"quickfix"}, {"refactor"}, {"refactor.rewrite"}, {"refactor.extract"}, {"source"}, {"quickfix", "refactor.rewrite"}}) {
        Value W = ask(T, B, E, &Only);
        X.add(CRequests);
        auto *Wo = W.getAsObject();
        auto *Wl = Wo ? Wo->getArray("result") : nullptr;
        if (!Wl) {
          X.fail("no-answer", At + "with kinds");
          continue;
        }
        std::vector<Str> Exp, Got;
        for (auto &A : *L) {
          Str K = A.getAsObject()->getString("kind").value_or("").str();
          for (auto &Q : Only)
            if (K == Q || starts(K, (Q + ".").c_str())) {
              Exp.push_back(cs::show(A));
              break;
            }
        }
        for (auto &A : *Wl) Got.push_back(cs::show(A));
        if (Exp != Got) {
          X.fail("only", At + "asked for kind " + Only[0] + (Only.size() > 1 ? ", ..." : "") + ", " + std::to_string(Got.size()) + " actions, expected " + std::to_string(Exp.size()));
          break;
        }
      }
    }
    return true;
  };
  int N = T.size();
  bool Ok = true;
  if (N <= 40) {
    for (int B = 0; B <= N && Ok; ++B)
      if (tr::boundary(T, B))
        for (int E = B; E <= N && Ok; ++E)
          if (tr::boundary(T, E)) Ok = one(B, E);
  } else
    for (auto &[B, E] : requests(T))
      if (!one(B, E)) break;
  closed();
}
} // namespace

int main(int argc, char **argv) {
  Pid = argv[1];
  Check C(Pid, argc - 1, argv + 1);
  Quick = C.quick();
  C.BudgetS = Quick ? 400 : 3000;
  C.HangS = 30;
  C.Counters = {"texts", "requests", "distinct_actions", "actions_judged", "beyond_the_evaluation_bound", "values_compared"};
  C.WorkerInit = [] { S = new cs::Session; };
  auto add = [&](Space Sp) { C.Spaces.push_back(std::move(Sp)); };
  auto wrap = [](const std::vector<Str> &Ws, const std::vector<Str> &Is) {
    std::vector<Str> R;
    for (auto &W : Ws)
      for (auto &I : Is) {
        Str Q;
        for (char Ch : W)
          if (Ch == '@') Q += I;
          else Q += Ch;
        R.push_back(Q);
      }
    return R;
  };
  auto forms = [&](int D) {
    sp::Forms F{sp::exprForms()};
    std::vector<Str> R;
    F.gen(D, R);
    return R;
  };
  const Str Real = "Every request (at every caret and for the extent of every node) of every text of each space is sent to the real Controller; every distinct action is applied by a reference editor (UTF-16 positions, non-overlapping edits), and ";
  const Str Norm = "both texts are parsed by the reference grammar and normalised by the reference evaluator (src/ref/eval.h), errors and infinite recursion being values of their own.";
  C.Assumptions = {"programs whose normal form needs more than the evaluator's step bound, or that ask for their own position, are only checked for validity (counted)"};
  if (Pid == "P29") {
    C.Rule = Real + "for valid programs " + Norm + " Every comment must survive.";
    std::vector<Str> I = {"a.b = 1;", "a.c = b;", "a.b.c = 2;", "a.b.d = b;", "a = { b = 1; };", "a = { d = b; e.f = 2; };", "a = rec { e = 3; d = e; };", "a = { inherit b; };", "a = { };", "a.b = { };", "a.d = { e = b; };", "a.e = rec { f = 1; g = f; };", "a.f = { inherit b; };", "a.f = { inherit (b) c; };", "\"a\".g = 5;", "\"a\" = { \"h i\" = 6; };", "a.\"j k\" = 7;", "a.${b} = 8;", "a.d.${b} = 9;", "a.m = { ${b} = 1; };", "b = 1;", "b.c = 2;", "b = a;", "inherit b;", "inherit (c) b;", "inherit a;", "${b}.a = 1;", "a = [ ];", "or.a = 1;", "a.or = b;", "a.n = let x = 1; in x;", "a.p = b: a;", "a.l = [ { q = b; } ];"};
    std::vector<Str> W = {"{ @ }", "rec { @ }", "let @ in a", "x: { y = { @ }; }"};
    std::vector<Str> Pairs, Triples;
    for (auto &A : I) {
      Pairs.push_back(A);
      for (auto &B : I) Pairs.push_back(A + " " + B);
    }
    add(listSpace("pairs", "one or two bindings of one set, in sets of each kind", wrap(W, Pairs)));
    std::vector<Str> J = {"a.b = 1;", "a.c = b;", "a.b.c = 2;", "a.d = { e = b; };", "a = { f = 3; g.h = 4; };", "a = { };", "a = rec { i = 1; j = i; };", "\"a\".k = 5;", "b = 6;", "inherit b;", "inherit (c) b;", "b.c = 7;", "a.${b} = 8;", "a.f = { inherit b; };", "a.\"j k\" = 9;"};
    std::vector<Str> W3 = {"{ @ }"};
    if (!Quick) W3.push_back("rec { @ }"), J = I;
    for (auto &A : J)
      for (auto &B : J)
        for (auto &D : J) Triples.push_back(A + " " + B + " " + D);
    add(listSpace("triples", "three bindings of one set", wrap(W3, Triples)));
    { // comments in every gap
      std::vector<Str> R;
      std::vector<std::vector<Str>> Ts = {{"{", "a", ".", "b", "=", "1", ";", "}"},
                                          {"{", "a", "=", "{", "b", "=", "1", ";", "}", ";", "}"},
                                          {"{", "a", "=", "{", "b", "=", "1", ";", "c", ".", "d", "=", "2", ";", "}", ";", "}"},
                                          {"{", "a", ".", "b", "=", "1", ";", "a", ".", "c", "=", "2", ";", "}"},
                                          {"{", "a", ".", "b", ".", "c", "=", "1", ";", "a", ".", "b", ".", "d", "=", "2", ";", "}"},
                                          {"{", "a", ".", "b", "=", "1", ";", "d", "=", "3", ";", "a", ".", "c", "=", "2", ";", "}"},
                                          {"{", "a", ".", "b", "=", "{", "c", "=", "1", ";", "}", ";", "a", ".", "d", "=", "[", "1", "]", ";", "}"},
                                          {"{", "a", ".", "b", "=", "{", "c", "=", "1", ";", "}", ";", "}"}};
      for (auto &T : Ts)
        for (size_t G = 0; G <= T.size(); ++G)
          for (size_t H = G; H <= T.size(); ++H)
            for (auto &Cm : {Str("/*x*/"), Str("#y\n")}) {
              Str Q;
              for (size_t K = 0; K <= T.size(); ++K) {
                if (K == G) Q += Cm;
                if (K == H && H != G) Q += "/*z*/";
                if (K < T.size()) Q += T[K] + " ";
              }
              R.push_back(Q);
            }
      add(listSpace("comments", "one or two comments in every gap of sets", R));
    }
    { // spellings: lines and tight text
      std::vector<Str> R;
      for (auto &Sep : {"", " ", "\n  ", "\r\n"})
        for (auto &A : I)
          for (auto &B : I) {
            Str Z = Str("{") + Sep + A + Sep + B + Sep + "}";
            R.push_back(Z);
            Str Tight;
            bool Q = false;
            for (size_t K = 0; K < Z.size(); ++K) {
              if (Z[K] == '"') Q = !Q;
              if (Z[K] == ' ' && !Q && (strchr("{}=;.[]", Z[K - 1]) || strchr("{}=;.[]", Z[K + 1]))) continue;
              Tight += Z[K];
            }
            if (Str(Sep).empty()) R.push_back(Tight);
          }
      add(listSpace("layout", "pairs of bindings on one line, on lines of their own, and without white space", R));
    }
    add(listSpace("nested", "grammar forms in the values", wrap({"{ a.b = @; a.c = 1; }", "{ a = { b = @; }; }"}, forms(1))));
    { // depth
      std::vector<Str> R;
      for (int D : {2, 3, 5, 20, 99, 100, 101, 102, 103, 130}) {
        Str P = "a", O = "1";
        for (int K = 1; K < D; ++K) P += ".a";
        R.push_back("{ " + P + " = 1; }");
        R.push_back("{ " + P + " = 1; a.b = 2; }");
        for (int K = 0; K < D; ++K) O = "{ a = " + O + "; }";
        R.push_back(O);
      }
      add(listSpace("depth", "long paths and deep sets", R));
    }
    C.Eval = [](Ctx &X, const Str &, const Str &T) {
      same(X, T, [](const Str &A) { return starts(A, "Flatten") || starts(A, "Pack") || starts(A, "Recursively pack"); });
    };
  } else if (Pid == "P30") {
    C.Rule = Real + "for valid programs " + Norm;
    auto Want = [](const Str &A) { return A == "Convert to `inherit`" || starts(A, "Convert to `inherit (") || A == "Convert to explicit binding" || starts(A, "Convert `with`"); };
    std::vector<Str> I = {"a = a;", "b = b;", "a = x.a;", "a = x.y.a;", "a = (x.y).a;", "a = (x y).a;", "a = x.\"y z\".a;", "a = x.${y}.a;", "a = x.a or 1;", "a = { a = 1; }.a;", "a = (rec { a = b; b = 1; }).a;", "\"a\" = a;", "\"or\" = x.or;", "or = x.or;", "\"x y\" = x.\"x y\";", "a = (a);", "a = a.a;", "a = b.a;", "b = a.b;", "inherit a;", "inherit b;", "inherit \"a\";", "inherit (x) a;", "inherit (x) \"a\";", "inherit (x) \"x y\";", "inherit (x) or;", "inherit (x) \"if\";", "inherit (x y) a;", "inherit (x.y) a;", "inherit (x.y or z) a;", "inherit ({ a = 1; }) a;", "inherit (rec { a = b; b = 1; }) a;", "inherit (let y = x; in y) a;", "inherit (if x then y else z) a;", "inherit (y: y) a;", "inherit (\"s\") a;", "inherit (./p) a;", "inherit (1) a;", "inherit (1.5) a;", "inherit (x + y) a;", "inherit (- x) a;", "inherit (with x; y) a;", "inherit ((x)) a;", "inherit ([ ]) a;", "inherit (a) b;", "inherit (b) a;", "inherit (a) a;", "inherit (<n>) a;", "inherit (a:b) a;", "inherit (x) true;", "inherit (x) null;", "true = true;", "null = x.null;", "inherit (x ? y) a;", "inherit x;", "x = 1;", "a.b = a.b;", "${a} = a;"};
    std::vector<Str> Pairs;
    for (auto &A : I) {
      Pairs.push_back(A);
      for (auto &B : I) Pairs.push_back(A + " " + B);
    }
    add(listSpace("bindings", "one or two bindings or inherits in sets of every kind", wrap({"{ @ }", "rec { @ }", "let @ in [ a b ]", "let { @ body = [ a b ]; }", "a: with x; { @ }", "let a = 1; b = 2; in rec { @ }", "let x = { a = 1; b = 2; y.a = 3; }; in { @ }"}, Pairs)));
    {
      std::vector<Str> R;
      for (auto &A : I)
        for (auto *Ws : {"", " ", "\n", "/*c*/"}) {
          Str Z;
          for (char Ch : A) Z += Ch == ' ' ? Str(Ws).empty() ? " " : Ws : Str(1, Ch);
          R.push_back("{" + Str(Ws) + Z + Str(Ws) + "}");
        }
      add(listSpace("layout", "bindings with other white space", R));
    }
    sp::Terms T{{"a", "b"}, {"with @; @", "let a = @; in @", "let inherit (@) a; in @", "{ a = @; inherit b; }", "rec { a = @; }", "(a: @)", "(@).a", "[ (@) (@) ]", "(@ @)", "{ inherit (@) a; }", "rec { a = @; inherit (@) b; }"}};
    // quick: asked at the start of every node only, over fewer forms
    sp::Terms T1{{"a", "b"}, {"with @; @", "let a = @; in @", "let inherit (@) a; in @", "{ inherit b; }", "rec { a = @; }", "(a: @)", "(@).a"}};
    add(sp::termSpace("withs", "programs of nesting depth 2 over with, let, rec, inherit, functions and selection", Quick ? T1 : T, 2));
    add(sp::chainSpace("scopes", "chains of scope contexts", sp::scopeForms(), {"b"}, {"a"}, Quick ? 2 : 3));
    add(sp::chainSpace("withs3", "chains of with, let, rec, inherit, functions and selection", T.F, {"a", "b"}, {"a", "b", "c"}, Quick ? 3 : 4));
    add(listSpace("operands", "a with in operand places, with forms as its source and body", wrap({"with @; a", "with a; @", "{ x = with @; [ a b ]; }", "[ (with @; a) ]", "x: with @; x a", "(with @; a).b", "with @; a.b", "with @; with b; c", "1 + (with @; a)", "let y = with @; a; in y", "with a; a; with @; b"}, forms(1))));
    {
      std::vector<Str> R;
      for (auto *M : {"{ a = 1; b = 2; }", "{ a = 1; }", "{ }", "rec { a = b; b = 1; }", "u"})
        for (auto *M2 : {"{ a = 3; b = 4; }", "{ b = 4; }", "{ }", "v", "a", "{ a = b; }"})
          for (auto *Bd : {"a", "[ a b ]", "{ inherit a b; }", "{ a = b; }", "let a = b; in a", "x: { a ? b }: a", "rec { a = b; }", "(a: b) b", "builtins.a", "map a", "{ inherit (a) b; }", "a.b or b", "\"${a}\"", "(with a; b)", "with { b = 5; }; a", "map"})
            for (auto *Fm : {"with %1; %3", "with %1; with %2; %3", "with %1; (x: with %2; %3)", "let a = %2; in with %1; %3", "with %2; let y = with %1; %3; in [ y a ]", "with %1 // %2; %3"}) {
              Str Z = Fm;
              auto Sub = [&](const char *K, const char *V) {
                for (size_t P; (P = Z.find(K)) != Str::npos;) Z.replace(P, 2, V);
              };
              Sub("%1", M), Sub("%2", M2), Sub("%3", Bd);
              R.push_back(Z);
            }
      std::sort(R.begin(), R.end());
      R.erase(std::unique(R.begin(), R.end()), R.end());
      add(listSpace("with-values", "with over known and unknown sets, nested and under binders, with every kind of body", R));
    }
    C.Eval = [Want](Ctx &X, const Str &Sp, const Str &T) {
      if (Quick && (starts(Sp, "with") || Sp == "scopes")) {
        auto R = startsOf(T);
        same(X, T, Want, &R);
      } else
        same(X, T, Want);
    };
  } else if (Pid == "P31") {
    C.Rule = Real + "for valid programs " + Norm + " Names are compared through the attribute sets, selections and tests that use them.";
    auto WantS = [](const Str &A) { return A == "Convert to double-quoted string" || A == "Convert to indented string"; };
    std::vector<Str> Dq = {"a", " ", "\n", "\\n", "\\t", "\\r", "\t", "\\\\", "\\\"", "$", "\\$", "{", "${x}", "'", "''", "}", "\xc3\xa9", "\r"};
    std::vector<Str> In = {"a", " ", "\n", "''$", "'''", "''\\n", "''\\t", "''\\r", "''\\'", "''\\a", "$", "{", "${x}", "\"", "\\", "\t", "'", "\xc3\xa9", "\r"};
    int L = Quick ? 4 : 5;
    add(seqSpace("quoted", "all sequences of pieces of a quoted string", Dq, 0, L, "", "\"", "\""));
    add(seqSpace("indented", "all sequences of pieces of an indented string", In, 0, L, "", "''", "''"));
    std::vector<Str> Lines = {"a", " a", "  a", "   ", "", "\ta", "  ${x}", "${x} ", " ''\\n", "  ''${", " '''", " $", "''\\ a", "a "};
    add(seqSpace("lines", "all sequences of lines of an indented string", Lines, 0, Quick ? 4 : 5, "\n", "''", "''"));
    add(seqSpace("lines2", "the same, beginning and ending on lines of their own", Lines, 0, Quick ? 4 : 5, "\n", "''\n", "\n  ''"));
    std::vector<Str> Sh = {"a", " ", "\\n", "\\$", "${x}", "'", "$"};
    add(seqSpace("quoted-long", "longer sequences of the pieces that matter at the ends", Sh, 5, Quick ? 6 : 7, "", "\"", "\""));
    { // neighbours
      std::vector<Str> R;
      std::vector<Str> Ss = {"\"\"", "\"a\"", "\"${x}\"", "\"'\"", "\" \"", "\"\\n\"", "''''", "''a''", "''${x}''", "'' a''", "''\n  a\n''", "\"a\n  b\"", "\"${\"a\"}\"", "''${''a''}''", "\"${''a''}\"", "''${\"a\"}''"};
      R = wrap({"@", "[@@]", "[@ @]", "a@", "a@b", "(@)", "@+@", "{a=@;}", "x:@", "if@then@else@", "f@@", "@.a or@", "{${@}=1;}", "a.${@}", "a ?${@}", "./a${@}", "\"${@}\"", "''${@}''", "''\n  ${@}\n    b''", "with@;@", "assert@;@", "let a=@;in@", "-@", "!@", "a:b @", "{ a ?@}:a", "1@", "@1", "'' ''@", "[''a''@]", "[@''a'']", "a'@", "a' @", "{a=''  x${@}'';}", "./a@", "./a @", "<n>@", "true@", "rec{a=@;}", "@==@", "{ inherit (@) a; }", "{ a.${@}.b=1;}", "a-@", "a+@", "a:b,@", "[a:b/@]", "a:@:b"}, Ss);
      add(listSpace("neighbours", "strings in every tight context", R));
    }
    std::vector<Str> Nm = {"a", "A", "_", "0", "-", "'", ".", " ", "é", "$", "\\\"", "or", "if", "true"};
    for (auto &W : std::vector<std::pair<Str, Str>>{{"{ \"", "\" = 1; }"}, {"x.\"", "\""}, {"{ inherit (x) \"", "\"; }"}})
      add(seqSpace("names " + W.first, "quoted names", Nm, 0, Quick ? 4 : 5, "", W.first, W.second));
    {
      std::vector<Str> Ns = {"a", "_a", "a'", "a-b", "a1", "or", "\"a\"", "\"or\"", "\"if\"", "\"then\"", "\"else\"", "\"assert\"", "\"with\"", "\"let\"", "\"in\"", "\"rec\"", "\"inherit\"", "\"true\"", "\"null\"", "\"false\"", "\"a b\"", "\"\"", "\"1\"", "\"-\"", "\"'\"", "\"a'\"", "\"a-\"", "\"a\\\"b\"", "\"\\${a}\"", "\"a\\n\"", "\"é\"", "${\"a\"}", "\"a${\"b\"}\"", "\"__curPos\"", "__curPos", "\"import\"", "\"$\"", "\"\\a\""};
      add(listSpace("names", "names in every place of a name, also without white space", wrap({"{ @ = 1; }", "{ b.@ = 1; }", "{ @.b = 1; }", "{@=1;}", "{b.@=1;}", "{@.b=1;}", "{ inherit @; }", "{ inherit (x) @; }", "{ inherit (x)@; }", "{ inherit (x) b@; }", "{ inherit (x)@\"b\"; }", "{inherit\"b\"@;}", "{inherit@;}", "x.@", "x.@.b", "x.@ or 1", "x.@or 1", "x ? @", "x ?@", "x ? b.@", "x.@ y", "x.@y", "[x.@y]", "[x.@1]", "[ x.@./p ]", "[x.@./p]", "x.@\"s\"", "x.@''s''", "rec { @ = 1; b = a; }", "let @ = 1; in a", "let @ = 1; in [ a ]", "let @=1;in a", "let inherit (x) @; in a", "rec{@=1;}", "let@=1;in a", "{b=1;@=2;}", "x.@:b", "x.@-1", "x.@ -1", "x.@/b", "x.@ /b", "if x.@then 1 else 2", "if x.@ then 1 else 2", "assert x ?@; 1", "x ?@-1", "x ?@&&y", "x.@==y", "with x.@;y", "x.${y}.@", "x?@.b", "{a.b=1;@.c=2;}", "let a = 1; in { inherit @; }", "x.@or", "x.@ or", "[ x.@ or ]", "x.@.@", "{ @.@ = 1; }", "{ b.@.c.@ = 1; }", "[ x<y.@>z ]", "x<y.@/b>z", "x.@>y", "x.@+y/z", "x.@.y/z", "x.@:y", "x.@<y>z", "a:b.@"}, Ns)));
    }
    C.Eval = [=](Ctx &X, const Str &Sp, const Str &T) {
      if (starts(Sp, "names")) same(X, T, [](const Str &A) { return A == "Quote attribute name" || A == "Unquote attribute name"; });
      else if (Sp == "neighbours") same(X, T, WantS);
      else { // one string: one caret inside, and the whole
        std::set<std::pair<int, int>> R{{0, 0}, {1, 1}, {0, (int)T.size()}};
        same(X, T, WantS, &R);
      }
    };
  } else if (Pid == "P32") {
    C.Rule = Real + "the new file and the changed document are parsed by the reference grammar and evaluated together (import of the new file gives its contents) by the reference evaluator; adding a formal is compared with the program whose tree has that formal added, and every other name must resolve as before.";
    sp::Terms ST{{"a", "b"}, sp::scopeForms()};
    add(sp::termSpace("scopes1", "programs of nesting depth 1 over the scope forms", ST, 1));
    add(sp::chainSpace("scopes2", "chains of 2 scope contexts", sp::scopeForms(), {"a", "b"}, {"a", "b"}, 2));
    add(listSpace("forms2", "grammar forms nested twice", forms(2)));
    {
      std::vector<Str> F = {"[ a ]", "{ a = 1; }", "(a)", "a b", "a + b", "- a", "! a", "x: a", "{ a, ... }: b", "let a = 1; in a", "if a then b else c", "with a; b", "assert a; b", "a ? b", "rec { a = b; b = 1; }", "{ inherit a; }", "{ inherit (a) b; }", "rec { inherit a; }", "{ ${a} = 1; }", "[ ./p ]", "(with a; b c)", "[ map ]", "[ import ]", "[ __curPos ]", "let { body = a; }", "[ (a: a) ]", "[ \"${a}\" ]", "[ or ]", "[ a.b ]", "[ a.b or c ]", "[ <n> ]", "{ a ? b }: a", "a@{ b }: a"};
      std::vector<Str> W = {"@", "(@)", "[ (@) ]", "{ a = @; }", "{ t = @; }", "{ a.b = @; }", "{ \"x y\" = @; }", "{ \"1\" = @; }", "{ ${x} = @; }", "{ or = @; }", "{ \"a/b\" = @; }", "{ \"../x\" = @; }", "{ \"\" = @; }", "{ \"é\" = @; }", "{ \"-\" = @; }", "a: @", "a: b: @", "{ a, b }: @", "with a; @", "with a; b: @", "with a; with b; @", "let a = 1; in @", "let a = @; in a", "let b = 2; in @", "rec { a = 1; c = @; }", "rec { a = @; }", "f (@)", "(@) f", "(@).a", "(@).a or b", "x.a or (@)", "(@) ? a", "x: (@)", "let import = 1; in @", "import: @", "with import; @", "x + (@)", "(@) + x", "-(@)", "if @ then 1 else 2", "if 1 then @ else 2", "assert @; 1", "\"${@}\"", "''${@}''", "./p${@}", "{ a = @; a.z = 1; }", "{ a.y = 1; a = @; }", "{ x ? @ }: x", "{ inherit (@) a; }", "let inherit (@) a; in a", "let map = 1; in @", "let true = 1; in @", "rec { import = 1; a = @; }", "let builtins = 1; in @", "with @; a", "or: @", "{ or }: @", "{ __curPos }: @", "let x.y = @; in x", "let x = @; x.z = 1; in x", "let { a = @; body = a; }", "x.${@}", "x ? ${@}", "a: with b; @", "(@ )", "x:@", "[(@)(@)]", "{a=@;}", "f(@)g", "builtins.map (@)", "let a = b: @; in a"};
      std::vector<Str> R = wrap(W, F), R2;
      for (auto &E : F) R.push_back("x@{ y }: " + E);
      add(listSpace("places", "expressions of each kind in each place", R));
      if (!Quick) add(listSpace("places2", "expressions of each kind in two places", wrap(W, R)));
    }
    {
      std::vector<Str> Hd = {"a", "y", ",", "...", "? y", "/*x*/", "#z\n"};
      std::vector<Str> Bodies = {"y", "[ y a ]", "with a; y", "let y = 1; in y", "(z: y)", "({ b }: y)", "{ inherit y; }", "y.a or y", "let a = y; in b: a"};
      for (auto &B : Bodies) {
        add(seqSpace("headers " + B, "sequences of header tokens", Hd, 0, Quick ? 4 : 5, " ", "{ ", " }: " + B));
        add(seqSpace("at-headers " + B, "sequences of header tokens with a name for the whole", Hd, 0, Quick ? 3 : 4, "", "w@{", "}: " + B));
      }
      add(listSpace("functions", "undefined names under functions and binders", wrap({"{ a }: @", "{ a ? @ }: a", "{ }: { b }: @", "{ a }: b: @", "{ a, ... }: @", "b: { a }: @", "{ a }\1b: @", "{a}:@", "{}:@", "{ a ? ({ b }: @) }: a", "{ a, }: @", "{ ..., }: @", "{ a # c\n }: @", "{ a /* , */ , }: @", "{ # c\n }: @", "{ ... # c\n }: @", "{ a, b ? c, ... }: @", "{ a, ... }\1w: { c }: [ (@) (@) ]", "x: { a }: y: @"}, {"y", "[ y ]", "[ y y ]", "with y; z", "(with a; [ y z ]) y", "[ (with a; y) y ]", "{ inherit y; }", "{ inherit (y) a; }", "or", "{ inherit (or) a; }", "rec { y = 1; z = y; }", "[ (let y = 1; in y) y ]", "y: z", "[ (y: y) y ]", "\"${y}\"", "x.${y}", "__curPos", "import", "[ import y ]", "map", "w", "y.w", "{ z ? y }: z", "if y then y else z", "a-b", "a'", "[ a-b a' ]"})));
    }
    C.Eval = [](Ctx &X, const Str &, const Str &T) {
      Str Q = T;
      for (auto &Ch : Q)
        if (Ch == 1) Ch = '@';
      p32(X, Q);
    };
  } else if (Pid == "P33") {
    C.Rule = "Every JSON text of each space is selected in a document and the conversion requested from the real Controller; the result is parsed by the reference grammar, evaluated by the reference evaluator and compared with the value a strict independent JSON reader gives the selection. Objects with the same key twice denote the last one.";
    C.Assumptions = {"JSON strings with lone surrogates denote no string and are not judged", "numbers that only lack JSON's form (01, +1, .5, 1.) may be converted, to their decimal value"};
    std::vector<Str> At = {"0", "-0", "1", "-1", "1.5", "-1.5", "1.0", "-1.0", "1e5", "1E+5", "1e-5", "1e300", "-1e300", "1e20", "1e-300", "1e17", "123456789012345680000", "5e-324", "1.7976931348623157e308", "0.1", "0.30000000000000004", "2147483648", "-2147483649", "9007199254740993", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e400", "100000", "1000000.5", "true", "false", "null", "\"\"", "\"a\"", "[]", "{}", "[ ]", "{ }", "01", "+1", ".5", "1.", "\"\\u0000\"", "\"\\ud800\"", "nan", "Infinity", "'a'"};
    std::vector<Str> Ch = {"a", " ", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\ud83d\\ude00", "\\u0001", "\\u007f", "\\u2028", "\xc3\xa9", "\xf0\x9f\x98\x80", "$", "{", "}", "''", "\\u0024", "\\u0000", "\\u0007"};
    auto Wr = std::vector<Str>{"[@]", "[@,@]", "[ 1, @ ]", "{\"a\":@}", "{ \"a\" : @ , \"b\" : [@] }", "[[@]]", "[{\"x\":@}]", "{\"a\":{\"b\":@}}", "{\"a\":1,\"a\":@}", "{\"or\":@,\"if\":@}", "[1,\n @]", "[@,]", "{\"a\":@,}", "[ -1, @, -2.5 ]", "\x01[@]\x01", "{ x = \x01[@]\x01; }", "f\x01[@]\x01g", "\xc3\xa9 \"\xf0\x9f\x98\x80\" + \x01{\"k\":@}\x01", "\n\n  \x01{\"a\"\n:@}\x01\n"};
    add(listSpace("values", "every value in every place", wrap(Wr, At)));
    {
      std::vector<Str> R2;
      for (auto &A : wrap(Wr, At))
        if (A.find('\x01') == Str::npos) R2.push_back(A);
      add(listSpace("nested", "values nested twice", wrap({"[@]", "{\"a\":@}", "[1,@,{}]", "{\"a\":1,\"b\":@,\"c\":[]}"}, R2)));
    }
    add(seqSpace("strings", "all sequences of string pieces", Ch, 0, Quick ? 4 : 5, "", "[\"", "\"]"));
    add(seqSpace("keys", "all sequences of string pieces as keys", Ch, 0, Quick ? 3 : 4, "", "{\"", "\":1}"));
    add(listSpace("key-names", "keys that are words", wrap({"{\"@\":1}", "{\"@\":{\"@\":[\"@\"]}}", "{\"b\":0,\"@\":-1}"}, {"a", "_", "a-b", "a'", "-a", "'a", "1a", "or", "if", "then", "else", "assert", "with", "let", "in", "rec", "inherit", "true", "false", "null", "__curPos", "import", "a.b", "a b", "", "${x}", "x${y", "$", "$$", "$${x}", "\\\\${x}"})));
    std::vector<Str> Tok = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "-2", "null", " ", "\"b\""};
    add(seqSpace("tokens", "all sequences of JSON tokens", Tok, 2, Quick ? 5 : 6, ""));
    {
      std::vector<Str> R;
      for (int D : {1, 2, 50, 99, 100, 101, 102, 103, 150}) {
        R.push_back(Str(D, '[') + "1" + Str(D, ']'));
        R.push_back(Str(D, '[') + Str(D, ']'));
        Str O, E;
        for (int K = 0; K < D; ++K) O += "{\"a\":", E += "}";
        R.push_back(O + "-1" + E);
      }
      for (int W : {9999, 10000, 10001}) {
        Str A = "[0", O = "{\"k\":0";
        for (int K = 1; K < W; ++K) A += ",1", O += ",\"k" + std::to_string(K) + "\":1";
        R.push_back("/*\x01" + A + "]\x01*/");
        R.push_back("/*\x01" + O + "}\x01*/");
      }
      add(listSpace("limits", "depth and width around the documented limits", R));
    }
    C.Eval = [](Ctx &X, const Str &, const Str &T) { p33(X, T); };
  } else if (Pid == "P36") {
    C.Rule = "At every caret and node of every valid text of each space the documentation link is offered exactly where the innermost selection has the base `lib` and a constant path; its address, decoded, must be that path, and resolving the action must ask the client to open that address.";
    C.Assumptions = {"at the edge of a selection, and inside its default expression, offering or not offering the link are both accepted"};
    std::vector<Str> Nm = {"a", "\"a\"", "\"x y\"", "\"a/b\"", "\"..\"", "\".\"", "\"é\"", "\"%41\"", "\"a?b\"", "\"a#b\"", "\"\"", "\"\\n\"", "a'", "a-b", "_", "or", "${x}", "${\"a\"}", "\"a${x}\"", "\"&\"", "\"\\\"<>\\\\\"", "\"😀\"", "\"a+b\"", "\"[x]\"", "\"$\""};
    std::vector<Str> Pt;
    for (auto &A : Nm) {
      Pt.push_back(A);
      for (auto &B : Nm) Pt.push_back(A + "." + B);
    }
    add(listSpace("paths", "all paths of one or two names, of several bases", wrap({"lib.@", "lib . @", "pkgs.@", "(lib).@", "lib.@ or x", "[ lib.@ ]", "lib.@ x", "lib: lib.@"}, Pt)));
    add(listSpace("three", "paths of three names", wrap({"lib.@.a", "lib.a.@"}, Pt)));
    add(listSpace("places", "library selections in every place", wrap({"@", "lib.@", "(@).a", "{ a = @; }", "@ @", "(@) (@)", "x: @", "let lib = @; in @", "with @; a", "with lib; @", "{ inherit (@) a; }", "{ inherit (lib) a; }", "lib.${@}", "lib.a.${@}.b", "lib.\"${@}\"", "lib.a or (@)", "(lib.a or @).b", "pkgs.lib.a", "pkgs.${@}", "x.y or @", "lib ? a", "lib ? ${@}", "\"${@}\"", "./p${@}", "if @ then @ else @", "[ @ @ ]", "(lib).a", "(lib.a).b", "lib", "rec { lib = 1; a = @; }", "({ lib }: @)", "lib a", "lib.a.b.c.d", "builtins.a", "libx.a", "lib'.a", "Lib.a", "lib.a or lib.b", "x.lib", "x.lib.a"}, {"lib.a", "lib.a.b", "pkgs.a", "lib", "lib.\"x y\"", "lib.${x}", "lib.a.${x}", "a", "lib.a or 1", "(lib.a)", "lib.a x", "lib\n.a", "lib./*c*/a", "lib.a lib.b", "lib.strings.concatMapStringsSep"})));
    C.Eval = [](Ctx &X, const Str &, const Str &T) { p36(X, T); };
  } else {
    C.Rule = "For every pair of positions of every text of each space the actions of the real Controller must be well-formed: edits in the document, inside it and disjoint, a created file only beside its own contents, an announced kind, and a change touching the request. The quick fixes must be those of the diagnostics of the text (computed by libnixf) that meet the request, and asking for some kinds must give exactly the actions of those kinds.";
    C.Assumptions = {"a diagnostic that only touches the end of the request may or may not be included"};
    auto FT = sp::tokensFull();
    std::vector<Str> R;
    for (auto &[A, B] : sp::contexts()) {
      R.push_back(A + B);
      for (auto &T : FT) R.push_back(A + T + B);
    }
    add(listSpace("contexts", "one token in each construct", R));
    add(seqSpace("tokens", "all sequences of tokens", FT, 0, Quick ? 2 : 3, " "));
    add(seqSpace("tight", "all sequences of tokens, without white space", FT, 2, 2, ""));
    add(listSpace("forms", "grammar forms", forms(1)));
    sp::Terms ST{{"a", "b"}, sp::scopeForms()};
    if (!Quick) {
      add(listSpace("forms2", "grammar forms nested twice", forms(2)));
      add(sp::termSpace("scopes1", "programs of nesting depth 1 over the scope forms", ST, 1));
    }
    {
      auto I = sp::bindItems();
      std::vector<Str> Ps;
      for (auto &A : I)
        for (auto &B : I)
          if (!Quick || A.size() + B.size() < 20) Ps.push_back(A + " " + B);
      add(listSpace("bindings", "pairs of bindings", wrap({"{ @ }"}, Ps)));
      add(listSpace("others", "several lines, other alphabets, JSON", wrap({"@", "\n@", "\xc3\xa9 @", "# \xf0\x9f\x98\x80\n@", "\"\xf0\x9f\x98\x80\" + @", "@\n", "@ #x\n", "{ \"\xf0\x9f\x98\x80\" = @; }", "\r\n@\r\n"}, {"let a = 1; in b", "{ a.b = 1; a.c = 2; }", "{ a = { b = 1; }; }", "{ a }: b", "with a; b", "lib.a", "{\"a\":1}", "[1,2]", "\"a\"", "''a''", "rec { }", "{ inherit a; }", "{ a = a; }", "(a)", "let a = 1; b = 2; in\n 3", "a:b", "{ a, a }: 1", "{ a = 1; a = 2; }"})));
    }
    C.Eval = [](Ctx &X, const Str &, const Str &T) { p39(X, T); };
  }
  return C.run();
}
