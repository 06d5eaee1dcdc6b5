#pragma once
#include <nixf/Sema/PrimOpInfo.h>

#include <set>
#include <string>
namespace su {
inline bool builtin(const std::string &N) {
  static const std::set<std::string> C{"true", "false", "null", "__currentTime", "__currentSystem", "__nixVersion", "__storeDir", "__langVersion", "__importNative", "__traceVerbose", "__nixPath", "derivation", "builtins", "__curPos"};
  if (C.count(N)) return true;
  auto It = nixf::PrimOpsInfo.find(N);
  return It != nixf::PrimOpsInfo.end() && !It->second.Internal;
}
} // namespace su
