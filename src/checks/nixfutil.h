#pragma once
// Helpers over libnixf's public API shared by the checks.
#include "mc/mc.h"

#include <nixf/Basic/Diagnostic.h>
#include <nixf/Basic/Nodes/Attrs.h>
#include <nixf/Basic/Nodes/Basic.h>
#include <nixf/Basic/Nodes/Expr.h>
#include <nixf/Basic/Nodes/Lambda.h>
#include <nixf/Basic/Nodes/Op.h>
#include <nixf/Basic/Nodes/Simple.h>
#include <nixf/Parse/Parser.h>

namespace nu {
using mc::Str;

inline bool isError(const nixf::Diagnostic &D) {
  auto S = nixf::Diagnostic::severity(D.kind());
  return S == nixf::Diagnostic::DS_Fatal || S == nixf::Diagnostic::DS_Error;
}
inline bool anyError(const std::vector<nixf::Diagnostic> &Ds) {
  for (auto &D : Ds)
    if (isError(D))
      return true;
  return false;
}
inline Str diagStr(const std::vector<nixf::Diagnostic> &Ds) {
  Str R;
  for (auto &D : Ds)
    R += Str(D.sname()) + "@" + std::to_string(D.range().lCur().offset()) + "-" +
         std::to_string(D.range().rCur().offset()) + ";";
  return R;
}
inline Str cur(const nixf::LexerCursor &C) {
  return std::to_string(C.line()) + ":" + std::to_string(C.column()) + "@" + std::to_string(C.offset());
}
inline Str rangeStr(const nixf::LexerCursorRange &R) { return cur(R.lCur()) + ".." + cur(R.rCur()); }

/// Shape of a tree: kinds, ranges. Used as the observed outcome of a parse.
inline void shape(const nixf::Node *N, Str &O) {
  if (!N) {
    O += "_";
    return;
  }
  O += (char)('A' + (int)N->kind() % 57);
  auto C = N->children();
  if (!C.empty()) {
    O += "(";
    for (auto *X : C)
      shape(X, O);
    O += ")";
  }
}
} // namespace nu
