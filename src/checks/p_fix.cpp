// P08: quick fixes.
#include "checks/nixspaces.h"
#include "checks/nixfutil.h"
#include "checks/scopeutil.h"
#include "ref/eval.h"

#include <nixf/Sema/VariableLookup.h>

using namespace mc;

namespace {
using DK = nixf::Diagnostic;
struct Ed {
  int b, e;
  Str t;
};
std::vector<DK> diags(const Str &T) {
  std::vector<DK> Ds;
  auto AST = nixf::parse(T, Ds);
  if (AST) {
    nixf::VariableLookupAnalysis V(Ds);
    V.runOnAST(*AST);
  }
  return Ds;
}
Str msg(const DK &D) { return D.format(); }

bool word(const Str &T, const Str &W) {
  auto id = [](char C) { return isalnum((unsigned char)C) || C == '_' || C == '-' || C == '\''; };
  for (size_t P = T.find(W); P != Str::npos; P = T.find(W, P + 1))
    if ((!P || !id(T[P - 1])) && (P + W.size() >= T.size() || !id(T[P + W.size()]))) return true;
  return false;
}

void p08(Ctx &X, const Str &T) {
  auto Ds = diags(T);
  bool AnyFix = false;
  for (auto &D : Ds) AnyFix |= !D.fixes().empty();
  X.add(0);
  if (!AnyFix) return;
  size_t Errors = 0;
  for (auto &D : Ds) Errors += nu::isError(D);
  std::unique_ptr<ref::Parsed> P;
  Str Norm;
  bool Valid = false;
  for (auto &D : Ds)
    for (auto &F : D.fixes()) {
      X.add(1);
      Str W = Str(D.sname()) + "@" + std::to_string(D.range().lCur().offset()) + " `" + F.message() + "`: ";
      std::vector<Ed> Es;
      for (auto &E : F.edits()) Es.push_back({(int)E.oldRange().lCur().offset(), (int)E.oldRange().rCur().offset(), Str(E.newText())});
      std::stable_sort(Es.begin(), Es.end(), [](auto &A, auto &B) { return A.b < B.b || (A.b == B.b && A.e < B.e); });
      bool Bad = Es.empty();
      if (Bad) X.fail("no-edit", W + "no edits");
      for (size_t I = 0; I < Es.size(); ++I) {
        if (Es[I].b < 0 || Es[I].e < Es[I].b || Es[I].e > (int)T.size()) X.fail("bad-range", W + "edit outside the text"), Bad = true;
        if (I && Es[I].b < Es[I - 1].e) X.fail(Str("overlap ") + D.sname(), W + "edits overlap"), Bad = true;
        if (I && Es[I].b == Es[I - 1].b && Es[I].e == Es[I - 1].e) X.fail(Str("same ") + D.sname(), W + "edits at the same place"), Bad = true;
      }
      if (Bad) continue;
      // apply, and map positions
      Str O;
      std::vector<int> L(T.size() + 1), Rt(T.size() + 1); // before and after text inserted at a position
      size_t I = 0;
      for (int C = 0; C <= (int)T.size(); ++C) {
        L[C] = O.size();
        while (I < Es.size() && Es[I].b == C && Es[I].e == C) O += Es[I++].t;
        Rt[C] = O.size();
        if (I < Es.size() && Es[I].b == C) {
          int E = Es[I].e, At = O.size();
          O += Es[I++].t;
          for (int K = C + 1; K < E; ++K) L[K] = Rt[K] = At;
          C = E - 1;
          continue;
        }
        if (C < (int)T.size()) O += T[C];
      }
      auto D2 = diags(O);
      Str R = esc(T) + "\n  becomes " + esc(O);
      auto Key = [&](const DK &A, int B, int E) { return Str(A.sname()) + "|" + msg(A) + "|" + std::to_string(B) + "," + std::to_string(E); };
      int B = D.range().lCur().offset(), E = D.range().rCur().offset();
      size_t Before = 0, After = 0;
      for (auto &A : Ds) Before += Key(A, A.range().lCur().offset(), A.range().rCur().offset()) == Key(D, B, E);
      std::set<Str> Ks;
      for (int U : {L[B], Rt[B]})
        for (int V : {L[E], Rt[E]})
          if (V >= U && (V > U || B == E)) Ks.insert(Key(D, U, V));
      for (auto &A : D2) After += Ks.count(Key(A, A.range().lCur().offset(), A.range().rCur().offset()));
      // One repair at a time: with other errors around, what the parser makes of
      // the rest of the text is a guess.
      bool Judge = Errors == (nu::isError(D) ? 1u : 0u);
      if (!Judge) {
        X.add(4);
        continue;
      }
      if (After >= Before) X.fail(Str("persists ") + D.sname() + " " + F.message(), W + "the complaint remains: " + R);
      size_t E2 = 0;
      Str Which;
      for (auto &A : D2) {
        // an inserted dummy expression is an undefined name by design
        if (nu::isError(D) && A.kind() == DK::DK_UndefinedVariable && Str(A.range().lCur().offset() < (int)O.size() ? O.substr(A.range().lCur().offset(), 4) : "") == "expr") continue;
        // repairing an error lets the parser see what else is missing there
        if (nu::isError(D) && (A.kind() == DK::DK_Expected || (A.kind() == DK::DK_EmptyFormal && D.kind() == DK::DK_EmptyFormal))) continue;
        if (nu::isError(D) && A.kind() == DK::DK_PrimOpUnknown && A.args()[0] == "dummy") continue;
        if (nu::isError(D) && A.kind() == DK::DK_UnexpectedText) continue;
        if (nu::isError(D) && A.kind() == DK::DK_UndefinedVariable && word(T, A.args()[0])) continue;
        // complaints of nixd about programs that Nix accepts (applying a number, a
        // missing builtin): judged by the value below
        if (!nu::isError(D) && (A.kind() == DK::DK_UnexpectedText || A.kind() == DK::DK_PrimOpUnknown)) continue;
        if (nu::isError(A)) ++E2, Which = A.sname() + (" " + msg(A));
      }
      if (E2) X.fail(Str("new-error ") + D.sname() + " " + F.message(), W + "a new error " + Which + ": " + R);
      if (!P) {
        P = std::make_unique<ref::Parsed>(ref::parse(T));
        Valid = Errors == 0 && P->ok();
        if (Valid) {
          ref::Eval Ev;
          Ev.builtin = su::builtin;
          Norm = Ev.norm(P->root);
        }
      }
      if (!Valid || E2) continue;
      X.add(2);
      auto P2 = ref::parse(O);
      if (P2.unspec) continue;
      if (!P2.ok()) {
        X.fail(Str("invalid ") + D.sname(), W + "the result is not a valid program: " + R);
        continue;
      }
      ref::Eval Ev;
      Ev.builtin = su::builtin;
      Str N2 = Ev.norm(P2.root);
      if (Norm.empty() || N2.empty()) {
        X.add(3);
        continue;
      }
      X.outcome(Norm);
      if (N2 != Norm) X.fail(Str("meaning ") + D.sname(), W + "the value changes: " + R + "\n  from " + Norm + "\n  to   " + N2);
    }
}
} // namespace

int main(int argc, char **argv) {
  Str Id = argv[1];
  Check C(Id, argc - 1, argv + 1);
  bool Q = C.quick();
  C.BudgetS = Q ? 300 : 3000;
  C.HangS = 20;
  C.Counters = {"texts", "fixes_applied", "values_compared", "beyond_the_evaluation_bound", "other_errors_around"};
  C.Rule = "Every fix of every diagnostic of every text of each space is applied; the result is parsed and analysed again by the real code, and for valid programs both texts are normalised by the reference evaluator (src/ref/eval.h) and compared.";
  C.Assumptions = {"a new error is only judged when the text had no error but the one fixed: with several errors, repairing one lets the parser see more of the text"};
  auto FT = sp::tokensFull();
  auto forms = [&](int D) {
    sp::Forms F{sp::exprForms()};
    std::vector<Str> R;
    F.gen(D, R);
    return R;
  };
  auto add = [&](Space S) { C.Spaces.push_back(std::move(S)); };
  std::vector<Str> R;
  for (auto &[A, B] : sp::contexts())
    for (auto &T : FT) {
      R.push_back(A + T + B);
      for (auto &U : FT) {
        R.push_back(A + T + " " + U + B);
        R.push_back(A + T + U + B);
      }
    }
  add(listSpace("contexts", "pairs of tokens in each construct", R));
  add(seqSpace("tokens", "all sequences of tokens", FT, 0, Q ? 2 : 3, " "));
  add(listSpace("forms2", "grammar forms nested twice", forms(2)));
  { // parentheses and prefixes in every tight context
    std::vector<Str> R;
    std::vector<Str> In = {"(a)", "((a))", "(1)", "(a b)", "(\"s\")", "(./p)", "(a.b)", "([ a ])", "({ })", "(x: x)", "(-1)", "(a + b)", "(1.5)", "(a:b)", "(<n>)", "(rec { a = 1; })", "(''i'')", "(let { body = 1; })", "(let a = 1; in a)", "(if a then b else c)", "( a )", "(a # x\n)", "(/* c */ a)", "(a.b or c)", "(or)", "(a ? b)", "(!a)", "(~/p)", "(.5)", "(5.)", "(map)", "builtins.map", "builtins . map", "builtins.length", "builtins.\"map\"", "with a; b", "rec { a = 1; }", "(builtins).map", "builtins.map or 1", "builtins.builtins.map"};
    for (auto *W : {"@", "f@", "@f", "f @", "@@", "@.b", "a.b or @", "@/2", "2/@", "[@@]", "[ a@b ]", "-@", "!@", "- @", "@-1", "a-@", "\"${@}\"", "./a${@}", "{ a=@; }", "x:@", "@:x", "if@then@else@", "assert@;@", "with@;a", "let a=@;in@", "{ inherit@a; }", "{ inherit (@) a; }", "@?b", "a+@+b", "a//@", "@//a", "a.${@}", "{ a ?@}: a", "<@", "@>b", "a<@", "a:@", "1@", "let map = 1; in @", "let builtins = 1; in @", "with x; @", "a ->@", "@++@"})
      for (auto &I : In) {
        Str S;
        for (const char *Pp = W; *Pp; ++Pp) {
          if (*Pp == '@') S += I;
          else S += *Pp;
        }
        R.push_back(S);
      }
    add(listSpace("tight", "redundant parentheses and prefixes, without white space, in each context", R));
  }
  sp::Terms ST{{"a", "b"}, sp::scopeForms()};
  add(sp::termSpace("scopes1", "programs of nesting depth 1 over the scope forms", ST, 1));
  add(sp::chainSpace("scopes2", "chains of 2 scope contexts", sp::scopeForms(), {"a", "b"}, {"a", "b"}, 2));
  {
    std::vector<Str> R;
    auto Items = sp::bindItems();
    for (auto *W : {"{ %s }", "rec { %s }", "let %s in a", "let %s in 1", "let { %s }", "let { %s body = b; }", "let %s b = a; in b.c"})
      for (auto &I : Items)
        for (auto &J : Items) {
          Str S = W;
          S.replace(S.find("%s"), 2, I + " " + J);
          R.push_back(S);
          if (I == J) {
            S = W;
            S.replace(S.find("%s"), 2, I);
            R.push_back(S);
          }
        }
    for (auto *W : {"let %s in map", "let %s in [ map length ]", "let map = 1; in let %s in map", "rec { x = map; %s }", "let %s in { inherit map; }"})
      for (auto *I : {"inherit (builtins) map;", "inherit (builtins) map length;", "inherit (builtins) length map;", "inherit (builtins) \"map\";", "inherit (builtins) ;", "builtins = 1; inherit (builtins) map;", "map = builtins.map;", "inherit (x) map;"}) {
        Str S = W;
        S.replace(S.find("%s"), 2, I);
        R.push_back(S);
      }
    add(listSpace("bindings", "all pairs of bindings in sets and lets", R));
  }
  {
    std::vector<Str> Hd = {"a", "b", ",", "...", "? 1", "@", "}", "{", ":", " x", "${a}"};
    add(seqSpace("headers", "sequences of header tokens", Hd, 0, Q ? 4 : 5, " ", "{ ", " }: x"));
    add(seqSpace("headers-at", "sequences of header tokens before the colon", Hd, 0, Q ? 4 : 5, " ", "", ": x"));
  }
  if (!Q) {
    add(sp::chainSpace("scopes3", "chains of 3 scope contexts", sp::scopeForms(), {"b"}, {"a", "b"}, 3));
    add(listSpace("forms3", "grammar forms nested three times", forms(3)));
  }
  C.Eval = [](Ctx &X, const Str &, const Str &T) { p08(X, T); };
  return C.run();
}
