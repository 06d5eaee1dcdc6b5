// Helpers of the demonstrations.
#pragma once
#include <iostream>
#include <sstream>
#include <string>
#if __has_include(<nixf/Parse/Parser.h>)
#include <nixf/Basic/Diagnostic.h>
#include <nixf/Basic/Nodes/Attrs.h>
#include <nixf/Basic/Nodes/Expr.h>
#include <nixf/Basic/Nodes/Lambda.h>
#include <nixf/Basic/Nodes/Op.h>
#include <nixf/Basic/Nodes/Simple.h>
#include <nixf/Parse/Parser.h>
#include <nixf/Sema/ParentMap.h>
#include <nixf/Sema/VariableLookup.h>
struct Parsed {
  std::string text;
  std::vector<nixf::Diagnostic> ds;
  std::shared_ptr<nixf::Node> ast;
  std::unique_ptr<nixf::VariableLookupAnalysis> vla;
  Parsed(std::string T, bool Lookup = false) : text(std::move(T)) {
    ast = nixf::parse(text, ds);
    if (ast && Lookup) {
      vla = std::make_unique<nixf::VariableLookupAnalysis>(ds);
      vla->runOnAST(*ast);
    }
  }
  int count(const std::string &S) const {
    int N = 0;
    for (auto &D : ds) N += S == D.sname();
    return N;
  }
  int errors() const {
    int N = 0;
    for (auto &D : ds) N += nixf::Diagnostic::severity(D.kind()) <= nixf::Diagnostic::DS_Error;
    return N;
  }
  std::string list() const {
    std::string S;
    for (auto &D : ds) S += std::string(D.sname()) + "@" + std::to_string(D.range().lCur().offset()) + "-" + std::to_string(D.range().rCur().offset()) + " ";
    return S;
  }
};
#endif
inline int Bad = 0;
inline void expect(bool C, const std::string &M) {
  if (!C) {
    ++Bad;
    std::cerr << "FAILED: " << M << "\n";
  }
}
