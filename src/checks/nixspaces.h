// Bounded spaces of Nix programs shared by the checks.
#pragma once
#include "mc/mc.h"

#include <algorithm>

namespace sp {
using mc::Space;
using mc::Str;

inline std::vector<Str> tokensFull() {
  return {"a",    "or",  "1",   "1.5", "\"s\"", "\"${a}\"", "''i''", "''${a}''", "./p", "./p/${a}", "<n>", "a:b",
          "if ",  "then ", "else ", "assert ", "with ", "let ", "in ", "rec ", "inherit ",
          "{",    "}",   "[",   "]",   "(",    ")",    "${",  "=",   ";",    ".",   "...", ",",   ":",   "@",  "?",
          "!",    "-",   "+",   "*",   "/",    "++",   "//",  "==",  "!=",   "<",   "<=",  ">",   ">=",  "&&", "||", "->",
          "|>",   "<|",  "\"",  "''",  "#c\n", "/*c*/", " ",  "\n", "\xc3\xa9", "\\", "$"};
}

/// Grammar-shaped programs. A form is a text with holes: `@` any expression,
/// `#` an operand (no bare operators or lambdas), `%` an attribute name, \\1 a literal @.
inline const std::vector<Str> &exprForms() {
  static const std::vector<Str> F = {
      "a", "b", "1", "\"s\"", "./p", "<n/m>", "2.5", "''i''", "x:y",
      "(@)", "[ # # ]", "{ % = @; }", "rec { a = @; % = @; }", "{ a.% = @; inherit (@) b %; }", "{ inherit a \"b\"; \"c${@}\".d = @; }", "{ ${@} = @; }",
      "let % = @; in @", "let inherit (@) %; a.b = @; in @", "#.%", "#.a.%", "#.${@}", "#.\"a${@}\" or #", "#.% or #", "# #", "# # #",
      "%: @", "{ %, b ? @ }: @", "{ % ? @, ... }\1c: @", "c\1{ a, % }: @", "{ }: @", "{ ... }: @", "{ a ? @, }: @",
      "! #", "- #", "# ? %", "# ? a.${@}", "# + #", "# - #", "# * #", "# / #", "# ++ #", "# // #", "# == #", "# != #", "# < #", "# >= #", "# && #", "# || #", "# -> #", "# |> #", "# <| #",
      "if @ then @ else @", "assert @; @", "with @; @", "\"x${@}y\"", "''\n  ${@}\n  z''", "./p/${@}/q", "let { % = @; body = @; }"};
  return F;
}

/// All programs made by filling every hole of a form with the given fillers:
/// one hole varies over all fillers, the others take a leaf ("one-hole"
/// composition), recursively to the given depth.
struct Forms {
  std::vector<Str> F;
  Str Leaf = "a";
  static size_t holes(const Str &S) {
    size_t N = 0;
    for (char C : S) N += C == '@' || C == '#' || C == '%';
    return N;
  }
  Str fill(const Str &S, size_t Hole, const Str &With) const {
    Str R;
    size_t I = 0;
    for (char C : S) {
      if (C == '@' || C == '#') R += I++ == Hole ? With : Str(1, 'a' + (I - 1) % 3);
      else if (C == '%') R += I++ == Hole ? With : Str(1, 'b' + (I - 1) % 2);
      else R += C == 1 ? '@' : C;
    }
    return R;
  }
  static bool nameHole(const Str &S, size_t Hole) {
    size_t I = 0;
    for (char C : S)
      if (C == '@' || C == '#' || C == '%')
        if (I++ == Hole) return C == '%';
    return false;
  }
  /// every program of nesting depth exactly D (1: forms with leaves)
  void gen(int D, std::vector<Str> &Out) const {
    for (auto &S : F) {
      size_t H = holes(S);
      if (D == 1) {
        Out.push_back(fill(S, ~0u, ""));
        for (size_t I = 0; I < H; ++I)
          if (nameHole(S, I))
            for (auto *Nm : {"a", "or", "\"q r\"", "${c}", "\"x${a}\""}) Out.push_back(fill(S, I, Nm));
        continue;
      }
      for (size_t I = 0; I < H; ++I) {
        if (nameHole(S, I)) continue;
        std::vector<Str> Sub;
        gen(D - 1, Sub);
        for (auto &X : Sub) Out.push_back(fill(S, I, X));
      }
    }
  }
};

/// All terms of nesting depth at most D over the given forms, every hole `@`
/// filled independently; leaves at depth 0. Indexable without being stored.
struct Terms {
  std::vector<Str> Leaves, F;
  uint64_t count(int D) const {
    uint64_t N = Leaves.size();
    if (D == 0) return N;
    uint64_t P = count(D - 1);
    for (auto &S : F) {
      uint64_t M = 1;
      for (size_t H = Forms::holes(S); H--;) M *= P;
      N += M;
    }
    return N;
  }
  Str at(int D, uint64_t I) const {
    if (I < Leaves.size()) return Leaves[I];
    I -= Leaves.size();
    uint64_t P = count(D - 1);
    for (auto &S : F) {
      uint64_t M = 1;
      for (size_t H = Forms::holes(S); H--;) M *= P;
      if (I >= M) {
        I -= M;
        continue;
      }
      Str R;
      for (char C : S) {
        if (C != '@') {
          R += C == 1 ? '@' : C;
          continue;
        }
        R += at(D - 1, I % P);
        I /= P;
      }
      return R;
    }
    return "";
  }
};
inline Space termSpace(Str Name, Str Rule, Terms T, int D) {
  auto P = std::make_shared<Terms>(std::move(T));
  uint64_t N = P->count(D);
  return {std::move(Name), std::move(Rule), N, [=](uint64_t I) { return P->at(D, I); }};
}
/// Chains of exactly D contexts (a form with one hole kept, the others filled
/// with leaf L), ending in each leaf.
inline Space chainSpace(Str Name, Str Rule, const std::vector<Str> &Fs, std::vector<Str> Fill, std::vector<Str> Leaves, int D) {
  auto Cx = std::make_shared<std::vector<std::pair<Str, Str>>>();
  for (auto &S : Fs) {
    size_t H = Forms::holes(S);
    for (size_t K = 0; K < H; ++K)
      for (auto &L : Fill) {
        Str A, B;
        size_t I = 0;
        bool Post = false;
        for (char C : S) {
          Str &O = Post ? B : A;
          if (C == '@') {
            if (I++ == K) Post = true;
            else O += L;
          } else O += C == 1 ? '@' : C;
        }
        if (std::find(Cx->begin(), Cx->end(), std::make_pair(A, B)) == Cx->end()) Cx->push_back({A, B});
      }
  }
  uint64_t N = Leaves.size();
  for (int I = 0; I < D; ++I) N *= Cx->size();
  return {std::move(Name), std::move(Rule), N, [=](uint64_t I) {
            Str R = Leaves[I % Leaves.size()];
            I /= Leaves.size();
            for (int J = 0; J < D; ++J) {
              auto &X = (*Cx)[I % Cx->size()];
              R = X.first + R + X.second;
              I /= Cx->size();
            }
            return R;
          }};
}
/// Forms that bind, inherit and use the names a and b.
inline std::vector<Str> scopeForms() {
  return {"let a = @; in @", "let a = @; b = @; in b", "let inherit (@) a; in @", "let inherit a; in @", "let a.b = @; a.c = @; in a", "let inherit (@) a b; c.d = @; in a", "let in @",
          "rec { a = @; b = @; }", "rec { inherit a; b = @; }", "rec { inherit (@) a; b = @; }", "rec { a.b = @; }", "rec { a = rec { b = @; }; a.c = @; }", "rec { ${@} = @; a = 1; }", "rec { \"a\" = @; inherit (@); }",
          "{ a = @; inherit b; }", "{ inherit (@) a b; }", "{ a = { inherit b; }; a.c = @; }", "{ inherit (@); inherit \"a\"; ${@} = @; }",
          "with @; @", "(a: @)", "({ a, b ? @ }: @)", "({ a ? @, ... }\1b: @)", "(b\1{ a }: @)", "({ }: @)", "[ (@) (@) ]", "((@).a or (@))", "((@).${@})", "\"${@}\"", "(@ ? a)", "let { a = @; body = @; }"};
}

inline std::vector<std::pair<Str, Str>> contexts() {
  return {{"{ a = ", "; }"}, {"{ inherit ", "; }"}, {"{ inherit (a) ", "; }"}, {"{ ", " = 1; }"}, {"{ ", " }"}, {"let ", " in a"}, {"let { ", " }"}, {"rec { ", " }"},
          {"{ a, ", " }: a"}, {"{ a ? ", " }: a"}, {"a@{ ", " }: a"}, {"{ ", " }@b: a"}, {"a: ", ""}, {"a.", ""}, {"a.b or ", ""}, {"a ? ", ""}, {"a ", " b"}, {"[ ", " ]"}, {"( ", " )"},
          {"if ", " then b else c"}, {"if a then ", " else c"}, {"if a then b else ", ""}, {"assert ", "; b"}, {"with ", "; b"}, {"\"x${", "}y\""}, {"''x${", "}y''"}, {"./a${", "}/b"}, {"{ ${", "} = 1; }"}, {"{ \"a${", "}\" = 1; }"}, {"a ? ${", "}"}, {"- ", ""}, {"! ", ""}, {"/* x */ ", " # y"}};
}

inline std::vector<Str> bindItems() {
  return {"a = 1;", "a.b = 1;", "a.b.c = 1;", "a = { b = 1; };", "a = { ${x} = 1; };", "a = { ${y} = 2; b = 1; };", "a = rec { c = b; };", "a = { inherit b; };", "a.b = { c = 1; };", "a = { b = { d = 2; }; };", "a.c = rec { d = 1; };",
          "inherit a;", "inherit (a) b;", "inherit \"a\";", "inherit (x) \"a\" b;", "inherit a a;", "inherit (c) a b;", "inherit;", "inherit (x);",
          "\"a\" = 1;", "\"a\".b = 2;", "${x} = 1;", "${x}.a = 1;", "a.${x} = 1;", "a.${x}.c = 1;", "a.${x} = { b = 1; };", "\"a${x}\" = 1;", "a.\"\" = 1;", "a.b.\"c${d}\" = 1;", "or = 1;", "inherit or;", "a = a;", "b = 1;", "a = let b = 1; in b;", "a = {};", "a = x: x;", "a.\"b\".c = 2;", "inherit ${x};", "a = [ ];", "body = 1;"};
}
} // namespace sp
