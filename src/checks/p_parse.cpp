// P01 parser totality, P02 source geometry of trees and diagnostics.
#include "nixfutil.h"
#include <cstring>

using namespace mc;
using namespace nu;

namespace {
const Str NL = "\n";

std::vector<Str> tokensFull() {
  return {"a",    "or",  "1",   "1.5", "\"s\"", "\"${a}\"", "''i''", "''${a}''", "./p", "./p/${a}", "<n>", "a:b",
          "if ",  "then ", "else ", "assert ", "with ", "let ", "in ", "rec ", "inherit ",
          "{",    "}",   "[",   "]",   "(",    ")",    "${",  "=",   ";",    ".",   "...", ",",   ":",   "@",  "?",
          "!",    "-",   "+",   "*",   "/",    "++",   "//",  "==",  "!=",   "<",   "<=",  ">",   ">=",  "&&", "||", "->",
          "|>",   "<|",  "\"",  "''",  "#c\n", "/*c*/", " ",  "\n", "\xc3\xa9", "\\", "$"};
}
std::vector<Str> tokensCore() {
  return {"a", "\"s\"", "{", "}", "(", "[", "]", ")", "=", ";", ".", "${", ":", ",", "@", "inherit ", "let ", "in ", "rec ", "-", "?", "or ", "\n"};
}

struct Geo {
  const Str &Src;
  Ctx &X;
  std::vector<size_t> LineStart;
  std::set<const nixf::Node *> Seen;
  Geo(const Str &Src, Ctx &X) : Src(Src), X(X) {
    LineStart.push_back(0);
    for (size_t I = 0; I < Src.size(); ++I)
      if (Src[I] == '\n')
        LineStart.push_back(I + 1);
  }
  bool cursor(const nixf::LexerCursor &C, const char *What) {
    if (C.offset() > Src.size()) {
      X.fail("offset-outside-source", Str(What) + " " + cur(C) + " in " + std::to_string(Src.size()) + " bytes");
      return false;
    }
    size_t L = std::upper_bound(LineStart.begin(), LineStart.end(), C.offset()) - LineStart.begin() - 1;
    int64_t Col = C.offset() - LineStart[L];
    if (C.line() != (int64_t)L || C.column() != Col) {
      X.fail("line-column-mismatch",
             Str(What) + ": has " + cur(C) + ", source says " + std::to_string(L) + ":" + std::to_string(Col));
      return false;
    }
    return true;
  }
  bool range(const nixf::LexerCursorRange &R, const char *What) {
    if (!cursor(R.lCur(), What) || !cursor(R.rCur(), What))
      return false;
    if (R.lCur().offset() > R.rCur().offset()) {
      X.fail("inverted-range", Str(What) + " " + rangeStr(R));
      return false;
    }
    return true;
  }
  bool node(const nixf::Node *N) {
    if (!range(N->range(), N->name()))
      return false;
    std::vector<const nixf::Node *> Kids;
    auto Keyword = [&](const nixf::Node &K) {
      Seen.insert(&K);
      if (Str(K.src(Src)) != "let") {
        X.fail("leaf-text", "let keyword covers '" + Str(K.src(Src)) + "'");
        return false;
      }
      if (K.lCur().offset() != N->lCur().offset()) {
        X.fail("keyword", "let keyword is not at the start of its expression");
        return false;
      }
      Kids.push_back(&K);
      return range(K.range(), "let keyword");
    };
    if (N->kind() == nixf::Node::NK_ExprLet && !Keyword(static_cast<const nixf::ExprLet &>(*N).let())) return false;
    if (N->kind() == nixf::Node::NK_ExprLegacyLet && !Keyword(static_cast<const nixf::ExprLegacyLet &>(*N).let())) return false;
    for (auto *C : N->children())
      // `let` marks its bindings as recursive by being a child of them as well;
      // it belongs to the outermost of its parents.
      if (C && Seen.insert(C).second) {
        if (!node(C))
          return false;
        if (C->lCur().offset() < N->lCur().offset() || C->rCur().offset() > N->rCur().offset()) {
          X.fail("child-outside-parent", Str(C->name()) + " " + rangeStr(C->range()) + " in " + N->name() + " " +
                                             rangeStr(N->range()));
          return false;
        }
        Kids.push_back(C);
      }
    std::stable_sort(Kids.begin(), Kids.end(), [](auto *A, auto *B) {
      return std::make_pair(A->lCur().offset(), A->rCur().offset()) <
             std::make_pair(B->lCur().offset(), B->rCur().offset());
    });
    for (size_t I = 1; I < Kids.size(); ++I)
      if (Kids[I]->lCur().offset() < Kids[I - 1]->rCur().offset()) {
        X.fail("overlapping-siblings", Str(Kids[I - 1]->name()) + " " + rangeStr(Kids[I - 1]->range()) + " and " +
                                           Kids[I]->name() + " " + rangeStr(Kids[I]->range()));
        return false;
      }
    // A leaf that carries text carries the text of its range.
    if (N->kind() == nixf::Node::NK_Identifier) {
      auto &Id = static_cast<const nixf::Identifier &>(*N);
      if (!Id.name().empty() && N->src(Src) != Id.name()) {
        X.fail("leaf-text", "identifier " + Id.name() + " covers '" + Str(N->src(Src)) + "'");
        return false;
      }
    }
    return true;
  }
};

/// Nothing but white space and complete comments.
bool blank(const Str &S) {
  for (size_t I = 0; I < S.size();) {
    if (strchr(" \t\n\r\v\f", S[I]) && S[I]) ++I;
    else if (S[I] == 35) { while (I < S.size() && S[I] != 10 && S[I] != 13) ++I; }
    else if (S.compare(I, 2, "/*") == 0) { auto E = S.find("*/", I + 2); if (E == Str::npos) return false; I = E + 2; }
    else return false;
  }
  return true;
}

} // namespace

int main(int argc, char **argv) {
  Str Id = argv[1];
  Check C(Id, argc - 1, argv + 1);
  bool Q = C.quick();
  C.Rule = "Every string of each space is parsed by the real parser.";
  C.Counters = {"trees", "nodes", "diagnostics", "null_trees"};
  C.BudgetS = Q ? 300 : 3000;
  C.HangS = 10;
  // --- spaces
  std::vector<Str> All;
  for (int I = 0; I < 256; ++I)
    All.push_back(Str(1, (char)I));
  std::vector<Str> Ch;
  for (const char *P = "aor01.\"'$\\{}()[]=;:,@?!-+*/<>&|~_# \n\r"; *P; ++P)
    Ch.push_back(Str(1, *P));
  Ch.push_back("\xc3");
  Ch.push_back(Str(1, '\0'));
  C.Spaces.push_back(seqSpace("bytes", "all byte strings of length 0..2", All, 0, 2));
  C.Spaces.push_back(seqSpace("chars", "all strings over 42 lexically significant characters, length 3.." + std::to_string(Q ? 3 : 4), Ch, 3, Q ? 3 : 4));
  std::vector<Str> StrAl = {"\"", "\\", "$", "{", "}", "\n", "n", "'"};
  C.Spaces.push_back(seqSpace("in-string", "'\"' followed by all strings over {\" \\ $ { } newline n '}", StrAl, 0, Q ? 5 : 7, "", "\""));
  std::vector<Str> IndAl = {"'", "\\", "$", "{", "}", "\n", " ", "n"};
  C.Spaces.push_back(seqSpace("in-indented", "\"''\" followed by all strings over {' \\ $ { } newline space n}", IndAl, 0, Q ? 5 : 7, "", "''"));
  std::vector<Str> PathAl = {"a", "/", ".", "~", "$", "{", "}", "<", ">", "-", "+", ":", " "};
  C.Spaces.push_back(seqSpace("in-path", "all strings over 13 path characters", PathAl, 1, Q ? 4 : 6, "", ""));
  C.Spaces.push_back(seqSpace("path-interp", "'./a' followed by path characters", {"a", "/", "${", "}", ".", "\"", " ", "b"}, 1, Q ? 5 : 7, "", "./a"));
  std::vector<Str> NumAl = {"0", "1", "9", ".", "e", "E", "+", "-", "a", " "};
  C.Spaces.push_back(seqSpace("in-number", "all strings over 10 numeric characters", NumAl, 1, Q ? 4 : 6));
  std::vector<Str> ComAl = {"#", "/", "*", "\n", "\r", "a", " ", "'"};
  C.Spaces.push_back(seqSpace("in-comment", "comment characters", ComAl, 1, Q ? 5 : 7));
  C.Spaces.push_back(seqSpace("tokens", "all sequences of 0..3 over 61 tokens", tokensFull(), 0, 3));
  if (!Q)
    C.Spaces.push_back(seqSpace("tokens4", "all sequences of 4 over 61 tokens", tokensFull(), 4, 4));
  C.Spaces.push_back(seqSpace("core", "all sequences over 23 structural tokens, length 4.." + std::to_string(Q ? 4 : 5), tokensCore(), 4, Q ? 4 : 5));
  // contexts: every pair of tokens inside every construct, complete and cut short
  std::vector<std::pair<Str, Str>> Wrap = {{"{ a = ", "; }"}, {"{ inherit ", "; }"}, {"{ inherit (a) ", "; }"}, {"{ ", " = 1; }"}, {"let ", " in a"}, {"let { ", " }"}, {"rec { ", " }"},
                                           {"{ a, ", " }: a"}, {"{ a ? ", " }: a"}, {"a@{ ", " }: a"}, {"{ ", " }@b: a"}, {"a: ", ""}, {"a.", ""}, {"a.b or ", ""}, {"a ? ", ""}, {"a ", " b"}, {"[ ", " ]"}, {"( ", " )"},
                                           {"if ", " then b else c"}, {"if a then ", " else c"}, {"if a then b else ", ""}, {"assert ", "; b"}, {"with ", "; b"}, {"\"x${", "}y\""}, {"''x${", "}y''"}, {"./a${", "}/b"}, {"{ ${", "} = 1; }"}, {"{ \"a${", "}\" = 1; }"}, {"a ? ${", "}"}, {"- ", ""}, {"! ", ""}, {"/* x */ ", " # y"}};
  std::vector<Str> Ctxs;
  auto TF = tokensFull();
  for (auto &[A, B] : Wrap)
    for (auto &T : TF) {
      Ctxs.push_back(A + T + B);
      for (auto &U : TF) {
        Ctxs.push_back(A + T + " " + U + B);
        Ctxs.push_back(A + T + U);
      }
    }
  C.Spaces.push_back(listSpace("contexts", "every 1 and 2 tokens inside each of 32 constructs, closed and cut short", Ctxs));
  // two bindings / formals that interact
  std::vector<Str> Items = {"a = 1;", "a.b = 1;", "a.b.c = 1;", "a = { b = 1; };", "a = rec { c = b; };", "a = { inherit b; };", "inherit a;", "inherit (a) b;", "inherit \"a\";", "inherit (x) \"a\" b;", "inherit ${b};", "inherit (c) ${\"a\"} a;", "inherit;", "inherit (x);", "\"a\" = 1;", "\"a\".b = 2;", "${a} = 1;", "${\"a\"} = 1;", "a.${b} = 1;", "a.${\"b\"}.c = 1;", "\"a${b}\" = 1;", "a.\"\" = 1;", "a = ;", "a. = 1;", "a.b;", "= 1;", "a.b.\"c${d}\" = 1;", "or = 1;", "inherit or;", "__overrides = {};", "a.b = { c = 1; };", "a = a;", "a.${null} = 1;"};
  std::vector<Str> Pairs;
  for (auto *W : {"{ %}", "rec { %}", "let %in a", "let { %}"})
    for (auto &A : Items) {
      auto Put = [&](const Str &B) {
        Str S = W;
        S.replace(S.find('%'), 1, B);
        Pairs.push_back(S);
      };
      Put(A);
      for (auto &B : Items) {
        Put(A + " " + B);
        if (!Q || &W[0] == nullptr)
          for (auto &D : Items)
            Put(A + " " + B + " " + D);
      }
    }
  C.Spaces.push_back(listSpace("bindings", "all ordered pairs (thorough: triples) of 33 binding forms in 4 attribute-set forms", Pairs));
  C.Spaces.push_back(seqSpace("formals", "lambda headers: all sequences of formal tokens", {"a", "b", ",", "...", "? 1", "{", "}", "@", ":", "?"}, 1, Q ? 4 : 6, " ", "{ ", ""));
  // deep and long inputs
  std::vector<Str> Long;
  auto Rep = [](const Str &S, int N) {
    Str R;
    for (int I = 0; I < N; ++I)
      R += S;
    return R;
  };
  int Deep = Q ? 300 : 1000;
  for (auto &T : tokensFull()) {
    Long.push_back(Rep(T, Deep));
    Long.push_back(Rep(T + " ", Deep));
    Long.push_back(Rep("a " + T + " ", Deep));
  }
  for (auto *P : {"(a", "[a", "{a=", "a:", "if a then ", "with a;", "assert a;", "let a=", "rec{a=", "\"${", "''${", "a.${", "a?${", "-", "!", "{a?", "a+", "a++", "a//", "a->", "a b.c or ", "./a/${", "let{a="})
    Long.push_back(Rep(P, Deep));
  C.Spaces.push_back(listSpace("deep", "each token and opener repeated " + std::to_string(Deep) + " times", Long));

  bool Totality = Id == "P01";
  C.Assumptions = {"g++ 13 build with assertions, libstdc++ assertions, AddressSanitizer and UBSan; recursion depth bounded as stated"};
  C.Eval = [&](Ctx &X, const Str &, const Str &Case) {
    std::vector<nixf::Diagnostic> Ds;
    // exact-size heap copy: reads past the end are seen by ASan
    std::unique_ptr<char[]> Buf(new char[Case.size()]);
    memcpy(Buf.get(), Case.data(), Case.size());
    std::shared_ptr<nixf::Node> Ast = nixf::parse({Buf.get(), Case.size()}, Ds);
    X.add(2, Ds.size());
    Str O;
    shape(Ast.get(), O);
    for (auto &D : Ds)
      O += Str(";") + D.sname();
    X.outcome(O);
    X.add(1, O.size());
    X.add(Ast ? 0 : 3);
    if (Totality) {
      if (!Ast && !anyError(Ds) && !blank(Case))
        X.fail("silent-failure", "no tree and no error diagnostic");
      // deterministic: the same text gives the same tree and diagnostics
      std::vector<nixf::Diagnostic> D2;
      auto A2 = nixf::parse(Case, D2);
      Str O2;
      shape(A2.get(), O2);
      for (auto &D : D2)
        O2 += Str(";") + D.sname();
      if (O2 != O)
        X.fail("nondeterministic", O + " then " + O2);
      for (auto &D : Ds) {
        (void)D.format();
        for (auto &N : D.notes())
          (void)N.format();
      }
    } else {
      Geo G(Case, X);
      if (Ast && !G.node(Ast.get()))
        return;
      for (auto &D : Ds) {
        if (!G.range(D.range(), D.sname()))
          return;
        for (auto &N : D.notes())
          if (!G.range(N.range(), N.sname()))
            return;
        for (auto &F : D.fixes())
          for (auto &E : F.edits())
            if (!G.range(E.oldRange(), "fix edit"))
              return;
      }
    }
  };
  return C.run();
}
