// P24: document symbols, folding ranges and semantic tokens of the real
// Controller, against the reference tree, its desugared sets and its resolver.
#include "checks/nixspaces.h"
#include "checks/scopeutil.h"
#include "checks/textref.h"
#include "ctl/session.h"
#include "ref/resolve.h"

using namespace mc;
using cs::Array;
using cs::Object;
using cs::Value;

namespace {
enum { CTexts, CPrograms, CSyms, CFolds, CToks };
const Str DocUri = "file:///base/t.nix";
cs::Session *S = nullptr;
using R2 = std::pair<int, int>;
Str sh(R2 R) { return std::to_string(R.first) + "-" + std::to_string(R.second); }

struct Line {
  int Start, End;
};
int off(const Str &T, const Value *P) {
  auto *O = P ? P->getAsObject() : nullptr;
  if (!O) return -1;
  auto L = O->getInteger("line"), C = O->getInteger("character");
  if (!L || !C) return -1;
  auto R = tr::offset(T, *L, *C, false);
  return R.empty() ? -1 : (int)R[0];
}
R2 rangeOf(const Str &T, const Value *V) {
  auto *O = V ? V->getAsObject() : nullptr;
  if (!O) return {-1, -1};
  return {off(T, O->get("start")), off(T, O->get("end"))};
}
Value ask(const char *Method) {
  Value V = S->request(Method, Object{{"textDocument", Object{{"uri", DocUri}}}});
  S->reset();
  return V;
}
bool blank(llvm::StringRef N) { return N.trim().empty(); }

/// what the reference expects of a program
struct Want {
  std::multiset<Str> syms;
  std::multiset<Str> folds;
  std::set<Str> mayFold; ///< the bindings of a let
  std::map<R2, std::set<std::pair<int, int>>> toks; ///< allowed (type, modifiers)
  std::set<R2> must;                                ///< names that must be coloured
  const Str &T;
  bool inStr = false;
  std::map<R2, const ref::Scoping::Occ *> occ;
  explicit Want(const Str &T) : T(T) {}
  bool multi(int b, int e) { return T.substr(b, e - b).find('\n') != Str::npos; }
  Str lines(int b, int e) {
    auto P = tr::position(T, b), Q = tr::position(T, e);
    return std::to_string(P.first) + ":" + std::to_string(P.second) + "-" + std::to_string(Q.first) + ":" + std::to_string(Q.second);
  }
  void fold(const ref::N *N) {
    if (multi(N->b, N->e) && N->k != ref::LegacyLet) folds.insert(lines(N->b, N->e));
    if (N->k == ref::LegacyLet) mayFold.insert(lines(T.find('{', N->b), N->e));
    if (N->k == ref::Let && N->c.size() > 1) mayFold.insert(lines(N->c[0]->b, N->c[N->c.size() - 2]->e));
  }
  void tok(int b, int e, int Ty, int Mo, bool Must = true) {
    toks[{b, e}].insert({Ty, Mo});
    if (Must && !multi(b, e)) must.insert({b, e});
  }

  // symbols
  static Str name(const Str &N) { return blank(N) ? "\"" + N + "\"" : N; }
  void sset(const ref::Set *X, const Str &Up) {
    for (auto *F : X->from) sexpr(F, Up);
    for (auto &[N, D] : X->st) {
      Str Me = Up + "/" + name(N) + "@" + sh({D.name->b, D.name->e});
      bool Plain = D.kind == ref::Def::Plain, Own = D.nested && !(D.value && D.value->k == ref::Attrs && D.value->set == D.nested);
      syms.insert("attribute " + Me + (Plain && !Own && D.more.empty() && D.value && !D.value->set ? " to " + std::to_string(D.value->e) : ""));
      if (!Plain) continue;
      if (D.nested) sset(D.nested, Me);
      else sexpr(D.value, Me);
    }
    for (auto &D : X->dyn) {
      Str Me = Up + "/${dynamic attribute}@" + sh({D.name->b, D.name->e});
      syms.insert("attribute " + Me);
      if (D.nested) sset(D.nested, Me);
      else sexpr(D.value, Me);
    }
  }
  void sexpr(const ref::N *N, const Str &Up) {
    if (!N) return;
    switch (N->k) {
    case ref::String:
    case ref::IndString:
    case ref::NameDyn:
    case ref::NameStr: return;
    case ref::Attrs:
    case ref::LegacyLet: return sset(N->set, Up);
    case ref::Let:
      sset(N->set, Up);
      return sexpr(N->c.back(), Up);
    case ref::Lambda: {
      auto *At = N->c[0] ? N->c[0] : N->c[1];
      Str Me = Up + "/" + (N->c[0] ? N->c[0]->s : Str("(anonymous lambda)")) + "@" + (N->c[0] ? sh({At->b, At->e}) : Str("formals"));
      syms.insert("lambda " + Me + " over " + sh({N->b, N->e}));
      if (N->c[1])
        for (auto *F : N->c[1]->c) sexpr(F->c[1], Me);
      return sexpr(N->c[2], Me);
    }
    case ref::List: {
      Str Me = Up + "/{anonymous}@" + sh({N->b, N->e});
      syms.insert("list " + Me + " over " + sh({N->b, N->e}));
      for (auto *C : N->c) sexpr(C, Me);
      return;
    }
    default:
      for (auto *C : N->c) sexpr(C, Up);
    }
  }
  // folding
  void fexpr(const ref::N *N) {
    if (!N) return;
    switch (N->k) {
    case ref::Attrs:
    case ref::List:
    case ref::Lambda:
    case ref::Let:
    case ref::LegacyLet:
    case ref::With:
    case ref::If:
    case ref::String:
    case ref::IndString: fold(N); break;
    default: break;
    }
    for (auto *C : N->c) fexpr(C);
  }
  // tokens
  void keys(const ref::Set *X, bool Must) {
    for (auto &[N, D] : X->st) {
      if (D.kind != ref::Def::Plain) continue;
      tok(D.name->b, D.name->e, 10, 0, Must);
      for (auto *M : D.more) tok(M->b, M->e, 10, 0, false);
      if (D.nested && !(D.value && D.value->k == ref::Attrs && D.value->set == D.nested)) keys(D.nested, Must);
    }
    for (auto &D : X->dyn)
      if (D.nested && !(D.value && D.value->k == ref::Attrs && D.value->set == D.nested)) keys(D.nested, Must);
  }
  void texpr(const ref::N *N, bool Must) {
    if (!N) return;
    switch (N->k) {
    case ref::Var: {
      auto It = occ.find({N->b, N->e});
      if (It == occ.end()) return;
      auto &O = *It->second;
      using SC = ref::Scoping;
      if (O.k == SC::Builtin) {
        if (O.name == "true" || O.name == "false") tok(N->b, N->e, 9, 1, Must);
        else if (O.name == "null") tok(N->b, N->e, 8, 0, Must);
        else tok(N->b, N->e, 4, 1, Must);
      } else if (O.k == SC::Defined) tok(N->b, N->e, 5, 0, Must);
      else if (O.k == SC::FromWith) tok(N->b, N->e, 6, 4, Must);
      else tok(N->b, N->e, 5, 2, Must), tok(N->b, N->e, 7, 0, false);
      return;
    }
    case ref::Uri: return tok(N->b, N->e, 1, 0, Must);
    case ref::String:
    case ref::IndString: {
      bool Lit = true;
      for (auto *C : N->c) Lit &= C->k == ref::Text;
      if (Lit) tok(N->b, N->e, 1, 0, Must);
      for (auto *C : N->c) texpr(C, false);
      return;
    }
    case ref::NameDyn:
    case ref::NameStr:
      for (auto *C : N->c) texpr(C, false);
      return;
    case ref::Select:
      for (auto *M : N->c[1]->c)
        if (M->k == ref::NameId) tok(M->b, M->e, 3, 0, Must);
      break;
    case ref::Lambda:
      if (N->c[0]) tok(N->c[0]->b, N->c[0]->e, 11, 0, Must);
      if (N->c[1])
        for (auto *F : N->c[1]->c) tok(F->c[0]->b, F->c[0]->e, 12, 0, Must);
      break;
    case ref::Attrs:
    case ref::Let:
    case ref::LegacyLet: keys(N->set, Must); break;
    default: break;
    }
    for (auto *C : N->c) texpr(C, Must && N->k != ref::Inherit && N->k != ref::Formal);
  }
};

void symbols(Ctx &X, const Str &T, const Value &V, Want *W) {
  auto *L = V.getAsObject() ? V.getAsObject()->getArray("result") : nullptr;
  if (!L) {
    if (W) X.fail("symbols-answer", esc(T) + ": " + cs::show(V));
    return;
  }
  std::multiset<Str> Got;
  std::function<void(const Array &, R2, const Str &)> Go = [&](const Array &A, R2 In, const Str &Up) {
    for (auto &E : A) {
      X.add(CSyms);
      auto *O = E.getAsObject();
      auto N = O ? O->getString("name") : std::nullopt;
      auto De = O ? O->getString("detail") : std::nullopt;
      R2 R = rangeOf(T, O ? O->get("range") : nullptr), Q = rangeOf(T, O ? O->get("selectionRange") : nullptr);
      Str Sy = "symbol " + (N ? N->str() : "?") + " " + sh(R) + " selecting " + sh(Q);
      if (!N || blank(*N)) X.fail("symbol-name", esc(T) + ": " + Sy + " has a blank name");
      if (R.first < 0 || R.second < R.first || Q.first < 0 || Q.second < Q.first) X.fail("symbol-range", esc(T) + ": " + Sy + ": no ranges of the text: " + cs::show(E));
      else if (Q.first < R.first || Q.second > R.second) X.fail("symbol-selection", esc(T) + ": " + Sy + ": selection outside of the range");
      if (R.first < In.first || R.second > In.second) X.fail("symbol-nesting", esc(T) + ": " + Sy + " is outside of its parent " + sh(In));
      auto K = O ? O->getInteger("kind") : std::nullopt;
      if (!K || *K < 1 || *K > 26) X.fail("symbol-kind", esc(T) + ": " + Sy);
      Str Me = Up;
      if (De && (*De == "attribute" || *De == "lambda" || *De == "list")) {
        bool Fm = *De == "lambda" && N && *N == "(anonymous lambda)";
        Me += "/" + (N ? N->str() : Str()) + "@" + (Fm ? Str("formals") : sh(Q));
        Str Line = De->str() + " " + Me;
        if (*De == "lambda" || *De == "list") Line += " over " + sh(R);
        else if (W && W->syms.count(Line + " to " + std::to_string(R.second))) Line += " to " + std::to_string(R.second);
        Got.insert(Line);
      }
      if (auto *C = O ? O->getArray("children") : nullptr) Go(*C, R, Me);
    }
  };
  Go(*L, {0, (int)T.size()}, "");
  if (W && Got != W->syms) {
    std::vector<Str> A, B;
    std::set_difference(Got.begin(), Got.end(), W->syms.begin(), W->syms.end(), std::back_inserter(A));
    std::set_difference(W->syms.begin(), W->syms.end(), Got.begin(), Got.end(), std::back_inserter(B));
    Str D;
    for (auto &Y : A) D += " extra: " + Y;
    for (auto &Y : B) D += " missing: " + Y;
    X.fail("symbols", esc(T) + ":" + D);
  }
  Str All;
  for (auto &G : Got) All += G + ";";
  X.outcome(All);
}
void folds(Ctx &X, const Str &T, const Value &V, Want *W) {
  auto *L = V.getAsObject() ? V.getAsObject()->getArray("result") : nullptr;
  if (!L) {
    if (W) X.fail("folding-answer", esc(T) + ": " + cs::show(V));
    return;
  }
  std::multiset<Str> Got;
  int Ls = tr::lines(T).size();
  for (auto &E : *L) {
    X.add(CFolds);
    auto *O = E.getAsObject();
    // A zero is left out of the answer, see P18.
    int64_t A = O ? O->getInteger("startLine").value_or(-1) : -1, B = O ? O->getInteger("endLine").value_or(-1) : -1;
    int64_t C = O ? O->getInteger("startCharacter").value_or(0) : 0, D = O ? O->getInteger("endCharacter").value_or(0) : 0;
    if (A < 0 || B <= A || B >= Ls || tr::offset(T, A, C, false).empty() || tr::offset(T, B, D, false).empty()) X.fail("folding-range", esc(T) + ": " + cs::show(E));
    Got.insert(std::to_string(A) + ":" + std::to_string(C) + "-" + std::to_string(B) + ":" + std::to_string(D));
  }
  if (W) {
    // The bindings of a let may be folded as well; they are inside of it.
    Str D;
    for (auto &G : Got)
      if (Got.count(G) > W->folds.count(G) + W->mayFold.count(G)) D += " extra " + G;
    for (auto &G : W->folds)
      if (!Got.count(G)) D += " missing " + G;
    if (!D.empty()) X.fail("folding", esc(T) + ":" + D);
  }
}
void tokens(Ctx &X, const Str &T, const Value &V, Want *W) {
  auto *R = V.getAsObject() ? V.getAsObject()->getObject("result") : nullptr;
  auto *L = R ? R->getArray("data") : nullptr;
  if (!L) {
    if (W) X.fail("tokens-answer", esc(T) + ": " + cs::show(V));
    return;
  }
  if (L->size() % 5) return X.fail("tokens-size", esc(T));
  int64_t Li = 0, Ch = 0;
  int PrevEnd = 0;
  std::set<R2> Got;
  for (size_t I = 0; I + 4 < L->size(); I += 5) {
    X.add(CToks);
    int64_t F[5];
    for (int J = 0; J < 5; ++J) F[J] = (*L)[I + J].getAsInteger().value_or(-1);
    if (F[0] < 0 || F[1] < 0 || F[2] <= 0 || F[3] < 0 || F[3] > 12 || F[4] < 0 || F[4] > 7) {
      X.fail("token-values", esc(T) + ": " + cs::show(V));
      return;
    }
    if (F[0]) Li += F[0], Ch = F[1];
    else Ch += F[1];
    auto A = tr::offset(T, Li, Ch, false), B = tr::offset(T, Li, Ch + F[2], false);
    if (A.empty() || B.empty()) {
      X.fail("token-range", esc(T) + ": a token at line " + std::to_string(Li) + ", character " + std::to_string(Ch) + " of length " + std::to_string(F[2]) + " is not inside its line");
      return;
    }
    R2 P{(int)A[0], (int)B[0]};
    if (P.first < PrevEnd) X.fail("token-overlap", esc(T) + ": the token " + sh(P) + " overlaps the one before");
    PrevEnd = P.second;
    Got.insert(P);
    if (!W) continue;
    auto It = W->toks.find(P);
    if (It == W->toks.end()) X.fail("token", esc(T) + ": the token " + sh(P) + " is no name of the source");
    else if (!It->second.count({(int)F[3], (int)F[4]})) X.fail("token-kind", esc(T) + ": the token " + sh(P) + " has type " + std::to_string(F[3]) + ", modifiers " + std::to_string(F[4]));
  }
  if (W)
    for (auto &P : W->must)
      if (!Got.count(P)) X.fail("token-missing", esc(T) + ": no token for " + sh(P));
}
void eval(Ctx &X, const Str &, const Str &T) {
  if (!tr::utf8(T)) return;
  X.add(CTexts);
  ref::Parsed P = ref::parse(T);
  Want W(T);
  Want *Wp = nullptr;
  ref::Scoping So;
  if (P.ok()) {
    X.add(CPrograms);
    So.builtin = su::builtin;
    So.run(P.root);
    for (auto &O : So.occs)
      if (!O.inherited) W.occ[{O.b, O.e}] = &O;
    W.sexpr(P.root, "");
    W.fexpr(P.root);
    W.texpr(P.root, true);
    Wp = &W;
  }
  S->open(DocUri, T);
  S->reset();
  symbols(X, T, ask("textDocument/documentSymbol"), Wp);
  folds(X, T, ask("textDocument/foldingRange"), Wp);
  tokens(X, T, ask("textDocument/semanticTokens/full"), Wp);
  S->close(DocUri);
  S->reset();
}
} // namespace

int main(int argc, char **argv) {
  Check C(argv[1], argc - 1, argv + 1);
  bool Quick = C.quick();
  C.BudgetS = Quick ? 400 : 3000;
  C.HangS = 30;
  C.Rule = "Document symbols, folding ranges and semantic tokens of every text of each space are requested from the real Controller. For every text: ranges inside the text, selections inside ranges, children inside parents, names that can be shown, tokens in order, apart and inside their lines. For every valid program: symbols, their nesting, folding ranges, tokens and their kinds equal those of the reference tree and resolver.";
  C.Assumptions = {"contents of string interpolations and of interpolated attribute names have no symbols, and need no tokens (the project's tests pin it for symbols)", "names and sources of `inherit` and default values of formals need no tokens (pinned by the project's tests)", "folding ranges beginning in column 0 are a known finding of P18; the column is read as 0 where it is absent"};
  C.Counters = {"texts", "programs", "symbols", "folding_ranges", "tokens"};
  C.WorkerInit = [] {
    S = new cs::Session;
    S->reset();
  };
  auto forms = [&](int D) {
    sp::Forms F{sp::exprForms()};
    std::vector<Str> R;
    F.gen(D, R);
    return R;
  };
  auto map = [](std::vector<Str> V, const std::function<Str(Str)> &F) {
    for (auto &X : V) X = F(X);
    return V;
  };
  auto spaces = [](Str X, const Str &By) { // every space outside of comments
    Str R;
    for (char Ch : X) R += Ch == ' ' ? By : Str(1, Ch);
    return R;
  };
  auto add = [&](Space Sp) { C.Spaces.push_back(std::move(Sp)); };
  sp::Terms ST{{"a", "b"}, sp::scopeForms()};
  add(sp::termSpace("terms1", "programs of nesting depth 1 over the scope forms", ST, 1));
  add(sp::chainSpace("chains2", "chains of 2 scope contexts", sp::scopeForms(), {"a", "b"}, {"a"}, 2));
  add(listSpace("forms1", "grammar forms", forms(1)));
  add(listSpace("forms1-lines", "grammar forms written over several lines", map(forms(1), [&](Str X) { return spaces(X, "\n"); })));
  add(listSpace("forms1-wide", "grammar forms behind text of other alphabets", map(forms(1), [&](Str X) { return "/*\xc3\xa9\xf0\x9f\x98\x80*/\n" + spaces(X, "/*\xf0\x9f\x98\x80*/"); })));
  {
    auto I = sp::bindItems();
    std::vector<Str> R;
    for (auto &Wr : {"{ @ }", "rec { @ r = a; }", "let @ in a", "{ x = { @ }; x.q = 1; }", "x: { @ }", "[ { @ } ]", "{ a = 1; \n@ }"})
      for (auto &A : I)
        for (auto &B : I) {
          Str Z = Wr;
          Z.replace(Z.find('@'), 1, A + "\n" + B);
          R.push_back(Z);
        }
    add(listSpace("bindings", "pairs of bindings in seven kinds of sets", R));
  }
  add(listSpace("special", "strings, names and blanks", {"\"\"", "\" \"", "''''", "{ \"\" = 1; }", "{ \" \" = \"\\t\"; }", "a.\"\"", "\"\xc3\xa9\"", "''\xf0\x9f\x98\x80''", "[ \"\xc3\xa9\" a ]", "[ \"\xf0\x9f\x98\x80\" \"\xf0\x9f\x98\x80\" a.b ]", "{ \"\xf0\x9f\x98\x80\" = a; b = a; }", "{ \"\xc3\xa9\" = 1; inherit a; }", "let true = 1; null = 2; in [ true null false ]", "with a; true", "x: with x; [ null a map ]", "{ a = \"\n\"; b = 1; }", "''\n  ${ {\n a = 1; } }\n''", "\"${[\n1]}\"", "{ a ? [\n1 ] }: a", "{ a ? { b = c; } }@d: a", "{ inherit (let\n x = 1; in x) a b; }", "{ inherit ({ c = 1; }) a b; inherit (x) d; }", "{ a.b.c = 1; a.b.d = 2; e = 3; a.f = 4; }", "{ a = { b = 1; }; c = 2; a.d = 3; }", "{ ${x}.y = 1; a.${x} = [ ]; }", "{ a = x: y: { b = [ { c = d; } ]; }; }", "a.${b}.c or d", "a ? b.${c}", "{\r\n a = 1;\r\n}", "{ a = 1;\n\tb = 2; } # \xf0\x9f\x98\x80", "let\n a = 1; in\n a", "let { body = [\n]; }", "if\na then b else c", "with\na; b", "assert\na; b", "(\na)", "a\n+ b", "./a/${b}/c", "./a/${[\n]}", "1.5", "<a/b>", "https://a.b"}));
  add(seqSpace("tokens", "every sequence of up to the stated number of tokens, valid or not", {"{", "}", "[", "]", "a", "b", "=", ";", "let", "in", "inherit", "rec", "with", ":", ".", "\"", "''", "${", "\"\xc3\xa9\"", "\xf0\x9f\x98\x80", "\n", "@", "?", ",", "or", "1"}, 0, Quick ? 3 : 4, " "));
  if (!Quick) {
    add(listSpace("forms2", "grammar forms nested twice", forms(2)));
    add(listSpace("forms2-lines", "grammar forms nested twice over several lines", map(forms(2), [&](Str X) { return spaces(X, "\n"); })));
    add(sp::chainSpace("chains3", "chains of 3 scope contexts", sp::scopeForms(), {"b"}, {"a"}, 3));
  }
  C.Eval = eval;
  return C.run();
}
