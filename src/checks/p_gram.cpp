// P03 grammar structure, P04 rejection, P05 literal values, P06 attribute
// merging, P07 function headers: the real parser against the reference one.
#include "checks/nixspaces.h"
#include "ref/lift.h"

using namespace mc;

namespace {
Str rng(const nixf::Node &N) { return "[" + std::to_string(N.lCur().offset()) + "," + std::to_string(N.rCur().offset()) + "]"; }

void dump(const nixf::SemaAttrs &S, Str &O);
void dumpVal(const nixf::Attribute &A, Str &O) {
  using AK = nixf::Attribute::AttributeKind;
  if (A.kind() == AK::Inherit) O += "I";
  else if (A.kind() == AK::InheritFrom) {
    O += "F";
    O += rng(static_cast<const nixf::ExprSelect *>(A.value())->expr());
  } else if (A.value() && A.value()->kind() == nixf::Node::NK_ExprAttrs) dump(static_cast<const nixf::ExprAttrs *>(A.value())->sema(), O);
  else O += A.value() ? rng(*A.value()) : "_";
}
void dump(const nixf::SemaAttrs &S, Str &O) {
  O += S.isRecursive() ? "rec{" : "{";
  for (auto &[K, A] : S.staticAttrs()) {
    O += esc(K) + rng(A.key()) + "=";
    dumpVal(A, O);
    O += ";";
  }
  for (auto &A : S.dynamicAttrs()) {
    O += "$" + rng(A.key()) + "=";
    dumpVal(A, O);
    O += ";";
  }
  O += "}";
}
Str rng(const ref::N *N) { return N ? "[" + std::to_string(N->b) + "," + std::to_string(N->e) + "]" : "_"; }
void dump(const ref::Set *S, Str &O) {
  O += S->rec ? "rec{" : "{";
  for (auto &[K, D] : S->st) {
    O += esc(K) + rng(D.name) + "=";
    if (D.kind == ref::Def::Inherited) O += "I";
    else if (D.kind == ref::Def::InheritedFrom) O += "F" + rng(D.value);
    else if (D.nested) dump(D.nested, O);
    else O += rng(D.value);
    O += ";";
  }
  for (auto &D : S->dyn) {
    O += "$" + rng(D.name) + "=";
    if (D.nested) dump(D.nested, O);
    else O += rng(D.value);
    O += ";";
  }
  O += "}";
}
void collect(const nixf::Node *N, std::map<std::pair<int, int>, Str> &M) {
  if (N->kind() == nixf::Node::NK_ExprAttrs) {
    Str O;
    dump(static_cast<const nixf::ExprAttrs *>(N)->sema(), O);
    M[{N->lCur().offset(), N->rCur().offset()}] = O;
  }
  for (auto *C : N->children())
    if (C) collect(C, M);
}
void collect(const ref::N *N, std::map<std::pair<int, int>, Str> &M) {
  if (!N) return;
  if (N->set) {
    Str O;
    dump(N->set, O);
    int B = N->b, E = N->e;
    bool Skip = false;
    if (N->k == ref::Let) {
      if (N->c.size() < 2) Skip = true;
      else B = N->c[0]->b, E = N->c[N->c.size() - 2]->e;
    } else if (N->k == ref::LegacyLet) B = -2; // position of its brace: by elimination
    if (!Skip && B != -2) M[{B, E}] = O;
    if (B == -2) M[{-2, E}] = O;
  }
  for (auto *C : N->c) collect(C, M);
}

std::vector<Str> numbers() {
  return {};
}
} // namespace

int main(int argc, char **argv) {
  Str Id = argv[1];
  Check C(Id, argc - 1, argv + 1);
  bool Q = C.quick();
  C.Counters = {"accepted_by_reference", "rejected_by_reference", "left_out", "trees_compared", "sets_compared", "literals_compared"};
  C.BudgetS = Q ? 300 : 3000;
  C.HangS = 20;
  C.Rule = "Every text of each space is parsed by the real parser and by the reference parser (src/ref/nixref.h), and the two are compared.";
  C.Assumptions = {"the reference parser renders Nix's lexer.l, parser.y and parser-state.hh; texts on which Nix versions differ or nixd documents a deviation are counted as left_out: "
                   "literals in function position, `e or` without selection, floats with leading zeros, carriage returns in strings, names that are literal interpolations, recursive merge of nested sets"};
  auto FT = sp::tokensFull();
  auto chars = [&](const char *S) {
    std::vector<Str> R;
    for (; *S; ++S) R.push_back(Str(1, *S));
    return R;
  };
  auto contextCases = [&](const std::vector<Str> &Toks, int N) {
    std::vector<Str> R;
    for (auto &[A, B] : sp::contexts())
      for (auto &T : Toks) {
        R.push_back(A + T + B);
        if (N > 1)
          for (auto &U : Toks) {
            R.push_back(A + T + " " + U + B);
            R.push_back(A + T + U + B);
          }
      }
    return R;
  };
  auto forms = [&](int D) {
    sp::Forms F{sp::exprForms()};
    std::vector<Str> R;
    F.gen(D, R);
    return R;
  };
  std::vector<Str> Ops = {"+", "-", "*", "/", "++", "//", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "->", "|>", "<|", "?"};
  auto opSpace = [&](int N, const std::vector<Str> &O, bool Prefix, bool Parens) {
    // operand N+1 times with prefix, operators N times
    std::vector<Str> R;
    std::vector<Str> Pre = Prefix ? std::vector<Str>{"", "!", "- "} : std::vector<Str>{""};
    std::vector<Str> Cur{""};
    for (int I = 0; I <= N; ++I) {
      std::vector<Str> Next;
      for (auto &X : Cur)
        for (auto &P : Pre) {
          Str Y = X + P + Str(1, 'a' + I);
          if (I == N) Next.push_back(Y);
          else
            for (auto &Op : O) Next.push_back(Y + " " + Op + " ");
        }
      Cur = Next;
    }
    return Cur;
  };
  auto paths = [&]() { return chars("a/.~${}<>-+: \"()[]"); };
  if (Id == "P03" || Id == "P04") {
    C.Spaces.push_back(seqSpace("tokens", "all sequences of 1..3 over 63 tokens, separated by spaces", FT, 1, 3, " "));
    C.Spaces.push_back(seqSpace("tight", "all sequences of 1..3 over 63 tokens, unseparated", FT, 1, 3));
    C.Spaces.push_back(listSpace("contexts", "every 1 and 2 tokens inside each of 33 constructs", contextCases(FT, 2)));
    C.Spaces.push_back(listSpace("forms1", "every construct with leaves and every kind of name", forms(1)));
    C.Spaces.push_back(listSpace("forms2", "every construct in every hole of every construct", forms(2)));
    C.Spaces.push_back(listSpace("forms3", "constructs nested three deep", forms(3)));
    C.Spaces.push_back(listSpace("ops2", "all pairs of the 18 binary operators with all prefix operators", opSpace(2, Ops, true, false)));
    C.Spaces.push_back(listSpace("ops3", "all triples of operators", opSpace(3, Ops, false, false)));
    C.Spaces.push_back(listSpace("ops3p", "triples of one operator per precedence level with all prefixes", opSpace(3, {"+", "-", "/", "++", "//", "==", "<", "&&", "->", "?"}, true, false)));
    C.Spaces.push_back(seqSpace("pathchars", "all strings over path characters", paths(), 1, Q ? 4 : 5, "", "["));
    C.Spaces.push_back(seqSpace("paths", "list of path spellings", {"a", "/", ".", "~", "${a}", " ", "b", "-", "\"", ":", "<", ">"}, 1, Q ? 4 : 6, "", "[ ", " ]"));
    C.Spaces.push_back(seqSpace("trivia", "comments and white space around tokens", {"#", "/*", "*/", "\n", "\r", "a", " ", "*", "/", "\"", "+"}, 1, Q ? 5 : 6));
    C.Spaces.push_back(seqSpace("numbers", "number spellings in a list", {"0", "1", "9", ".", "e", "+", "-", "a", " ", "E"}, 1, Q ? 4 : 6, "", "[ ", " ]"));
    C.Spaces.push_back(seqSpace("strings", "string contents", {"\"", "\\", "$", "{", "}", "a", "''", "'", "\n"}, 1, Q ? 4 : 6, "", "[ \"", "\" ]"));
    C.Spaces.push_back(seqSpace("istrings", "indented string contents", {"'", "\\", "$", "{", "}", "a", "\"", "\n"}, 1, Q ? 5 : 6, "", "[ ''", "'' ]"));
    std::vector<Str> BT = {"a", "b", "\"s\"", "${a}", ".", "=", ";", "1", "inherit", "(", ")", "{", "}", "or", ",", "?", ":", "@", "..."};
    C.Spaces.push_back(seqSpace("sets", "all sequences of binding tokens in a set", BT, 3, Q ? 4 : 5, " ", "{ ", " }"));
    C.Spaces.push_back(seqSpace("headers", "all sequences of formal tokens", {"a", "b", ",", "...", "?", "1", "{", "}", "@", ":", ";"}, 1, Q ? 5 : 6, " ", "{ ", ": a"));
    C.Spaces.push_back(seqSpace("keywords", "all sequences of keyword tokens", {"if", "then", "else", "assert", "with", "let", "in", "rec", "a", ";", "{", "}", "=", "inherit", ":"}, 1, Q ? 5 : 6, " "));
    if (!Q) {
      C.Spaces.push_back(seqSpace("tokens4", "all sequences of 4 over 63 tokens", FT, 4, 4, " "));
      C.Spaces.push_back(listSpace("ops4", "all quadruples of one operator per level", opSpace(4, {"+", "-", "*", "/", "++", "//", "==", "<", "&&", "||", "->", "?", "|>"}, false, false)));
    }
  } else if (Id == "P05") {
    C.Spaces.push_back(seqSpace("string", "all contents over {\" \\ $ { } newline n t r a '}", {"\\", "$", "{", "a", "n", "t", "r", "}", "'", "\n", "${a}", "\\\""}, 0, Q ? 5 : 6, "", "\"", "\""));
    C.Spaces.push_back(seqSpace("indented", "all contents over {' \\ $ { } newline n a}", {"'", "\\", "$", "{", "a", "n", "t", "}", "\n", "${a}", " "}, 0, Q ? 5 : 6, "", "''", "''"));
    C.Spaces.push_back(seqSpace("ind-deep", "contents over {' $ \\ {}", {"'", "\\", "$", "{", "n"}, 6, Q ? 7 : 9, "", "''", "''"));
    C.Spaces.push_back(seqSpace("names", "quoted attribute names", {"\\", "$", "{", "a", "n", "${a}", "\\\""}, 0, Q ? 5 : 6, "", "{ \"", "\" = 1; }"));
    C.Spaces.push_back(seqSpace("numbers", "digit strings", {"0", "1", "9", ".", "e", "+", "-", "3"}, 1, Q ? 6 : 7, "", "", ""));
    C.Spaces.push_back(seqSpace("long", "integers around the limits", {"9223372036854775807", "9223372036854775808", "9223372036854775806", "0", "1", "00", "99999999999999999999", "16777217", "0.1", "3.141592653589793", "1.0e308", "123456789.123456789", "5.0e-324", "1.7976931348623157e308", ".1", "1."}, 1, 1));
    C.Spaces.push_back(seqSpace("path", "path spellings", {"a", "/", ".", "${a}", "-", "+", "_", "~"}, 1, Q ? 5 : 6, "", "./"));
    C.Spaces.push_back(seqSpace("uri", "URI spellings", {"a", ":", "/", "?", "=", "%", "'", ".", "+", "~"}, 1, Q ? 4 : 5, "", "x:"));
    C.Spaces.push_back(seqSpace("spath", "search path spellings", {"a", "/", ".", "-", "+", "_", "<", ">"}, 1, Q ? 5 : 6, "", "<", ">"));
  } else if (Id == "P06") {
    auto It = sp::bindItems();
    std::vector<Str> One, Tri;
    for (auto *W : {"{ %}", "rec { %}", "let %in a", "let { body = a; %}"}) {
      auto Put = [&](std::vector<Str> &V, const Str &B) {
        Str S = W;
        S.replace(S.find('%'), 1, B);
        V.push_back(S);
      };
      for (auto &A : It) {
        Put(One, A);
        for (auto &B : It) {
          Put(One, A + " " + B);
          for (auto &D : It) Put(Tri, A + " " + B + " " + D);
        }
      }
    }
    C.Spaces.push_back(listSpace("pairs", "all sequences of 1..2 of 38 bindings in 4 kinds of set", One));
    C.Spaces.push_back(listSpace("triples", "all sequences of 3 of 38 bindings in 4 kinds of set", Tri));
    C.Spaces.push_back(seqSpace("quads", "sequences of 4 interacting bindings", {"a.b = 1;", "a = { b = 1; };", "a = rec { c = 1; };", "a.c = 2;", "inherit a;", "a.b.c = 1;", "a.b = { d = 1; };", "a.${x} = 1;", "\"a\".e = 1;", "a = {};"}, 4, Q ? 4 : 5, " ", "{ ", " }"));
    C.Spaces.push_back(listSpace("forms2", "every construct in every hole of every construct", forms(2)));
  } else { // P07
    std::vector<Str> Hd;
    std::vector<Str> FTk = {"a", "b", ",", "...", "? 1", "? a", "c", "or", "\"a\"", ";"};
    for (auto &[A, B] : std::vector<std::pair<Str, Str>>{{"{ ", " }: a"}, {"a@{ ", " }: a"}, {"{ ", " }@b: a"}, {"{ ", " } @ a : a"}, {"x: { ", "}: a"}})
      C.Spaces.push_back(seqSpace("formals " + A + B, "all sequences of formal tokens", FTk, 0, Q ? 5 : 6, " ", A, B));
    C.Spaces.push_back(seqSpace("headers", "headers", {"a", "b", "{", "}", "@", ":", ",", "...", "? a", "{ a }", "{ a, b }"}, 1, Q ? 5 : 6, " ", "", " b"));
  }
  C.Eval = [&](Ctx &X, const Str &Space, const Str &Case) {
    ref::Parsed R = ref::parse(Case);
    if (R.unspec) {
      X.add(2);
      X.outcome("unspec" + R.why);
      return;
    }
    bool Accept = R.grammar && !R.sema;
    X.add(Accept ? 0 : 1);
    X.outcome(Accept ? ref::print(R.root) : R.why);
    std::vector<nixf::Diagnostic> Ds;
    auto Ast = nixf::parse(Case, Ds);
    bool Err = nu::anyError(Ds);
    auto mention = [&](const char *Name) {
      for (auto &D : Ds)
        if (Str(D.sname()) == Name) return true;
      return false;
    };
    if (Id == "P04") {
      if (!R.grammar && !R.root && ref::blank(Case)) return; // P01: an empty text gives no tree and no diagnostic
      if (!Accept && !Err) {
        // `a ?` without a name: nixd accepts; is it wrong but for that?
        Str Known;
        std::vector<int> At;
        std::function<void(const nixf::Node *)> F = [&](const nixf::Node *N) {
          if (N->kind() == nixf::Node::NK_ExprOpHasAttr && !static_cast<const nixf::ExprOpHasAttr *>(N)->attrpath()) At.push_back(static_cast<const nixf::ExprOpHasAttr *>(N)->op().rCur().offset());
          for (auto *K : N->children())
            if (K) F(K);
        };
        if (Ast) F(Ast.get());
        if (!At.empty()) {
          std::sort(At.rbegin(), At.rend());
          Str P = Case;
          for (int I : At) P.insert(I, " x ");
          ref::Parsed R2 = ref::parse(P);
          if (R2.unspec || (R2.grammar && !R2.sema)) Known = "has-attr-without-name";
        }
        X.fail("accepted", "Nix rejects this (" + R.why + "), no error diagnostic; tree " + (Ast ? Ast->name() : "none"), Known);
      }
      return;
    }
    if (Id == "P07") {
      if (!R.grammar || !R.root) {
        if (!Err) X.fail("accepted", "Nix rejects this header (" + R.why + ")");
        return;
      }
      if (R.sema != Err) {
        X.fail(Err ? "rejected" : "accepted", (R.sema ? "Nix rejects: " + R.why : Str("Nix accepts")) + "; diagnostics " + nu::diagStr(Ds));
        return;
      }
      // names of each header
      std::function<void(const nixf::Node *, const ref::N *)> Walk = [&](const nixf::Node *N, const ref::N *M) {};
      std::vector<Str> Got, Want;
      std::function<void(const nixf::Node *)> G = [&](const nixf::Node *N) {
        if (N->kind() == nixf::Node::NK_ExprLambda) {
          auto *A = static_cast<const nixf::ExprLambda *>(N)->arg();
          Str O = A && A->id() ? A->id()->name() : "";
          if (A && A->formals()) {
            O += "{";
            for (auto &[K, F] : A->formals()->dedup()) O += K + "@" + std::to_string(F->id()->lCur().offset()) + ",";
            bool E = false;
            for (auto &F : A->formals()->members()) E |= F->isEllipsis();
            O += E ? "...}" : "}";
          }
          Got.push_back(O);
        }
        for (auto *K : N->children())
          if (K) G(K);
      };
      std::function<void(const ref::N *)> W = [&](const ref::N *N) {
        if (!N) return;
        if (N->k == ref::Lambda) {
          Str O = N->c[0] ? N->c[0]->s : "";
          if (N->c[1]) {
            std::map<Str, int> Ns;
            for (auto *F : N->c[1]->c)
              if (!Ns.count(F->s)) Ns[F->s] = F->b;
            O += "{";
            for (auto &[K, P] : Ns) O += K + "@" + std::to_string(P) + ",";
            O += N->c[1]->s + "}";
          }
          Want.push_back(O);
        }
        for (auto *K : N->c) W(K);
      };
      if (Ast) G(Ast.get());
      W(R.root);
      if (Got != Want) {
        Str D;
        for (auto &S : Got) D += S + " ";
        D += "expected ";
        for (auto &S : Want) D += S + " ";
        X.fail("formals", D);
      }
      return;
    }
    if (Id == "P06") {
      if (!R.grammar) return;
      bool Dup = R.why == "duplicate attribute" && R.sema;
      if (R.sema != Err) {
        X.fail(Err ? "rejected" : "accepted", (R.sema ? "Nix rejects: " + R.why : Str("Nix accepts")) + "; diagnostics " + nu::diagStr(Ds));
        return;
      }
      if (Dup && !mention("sema-duplicated-attrname")) X.fail("no-dup", "duplicate attribute not reported: " + nu::diagStr(Ds));
      if (R.sema || !Ast) return;
      std::map<std::pair<int, int>, Str> Got, Want;
      collect(Ast.get(), Got);
      collect(R.root, Want);
      // a legacy let's set is known by its end only
      for (auto It = Want.begin(); It != Want.end();) {
        if (It->first.first == -2) {
          bool Found = false;
          for (auto &[P, S] : Got)
            if (P.second == It->first.second && S == It->second) Found = true;
          if (!Found) X.fail("set", "legacy let set " + It->second + " not found");
          It = Want.erase(It);
        } else ++It;
      }
      for (auto &[P, S] : Want) {
        X.add(4);
        auto G = Got.find(P);
        if (G == Got.end()) X.fail("set", "no set at " + std::to_string(P.first) + ", expected " + S);
        else if (G->second != S) X.fail("set", "got " + G->second + " expected " + S);
      }
      return;
    }
    if (!Accept) {
      if (Id == "P05" && R.grammar && R.sema && R.why == "integer too big" && !mention("parse-int-too-big")) X.fail("int", "integer overflow not reported");
      return;
    }
    if (Id == "P03" && Err) {
      X.fail("rejected", "valid program gets " + nu::diagStr(Ds));
      return;
    }
    if (!Ast) {
      if (Id == "P03") X.fail("no-tree", "no tree");
      return;
    }
    ref::Arena A;
    ref::Lift L(A);
    ref::N *G = L.expr(static_cast<const nixf::Expr *>(Ast.get()));
    X.add(3);
    bool V = Id == "P05";
    if (V && ref::print(G) != ref::print(R.root)) return; // P03's business
    if (!V && !L.Bad.empty()) {
      X.fail("incomplete-tree", L.Bad);
      return;
    }
    Str PG = ref::print(G, !V, V), PR = ref::print(R.root, !V, V);
    if (V) X.add(5);
    if (PG != PR) {
      Str Known;
      if (!V && (Case.find("|>") != Str::npos || Case.find("<|") != Str::npos)) {
        ref::Parsed R2 = ref::parse(Case, true);
        if (R2.root && ref::print(R2.root, true, false) == PG) Known = "pipe-associativity";
      }
      X.fail(V ? "value" : "tree", "got " + esc(PG) + "\nexpected " + esc(PR), Known);
    }
  };
  return C.run();
}
