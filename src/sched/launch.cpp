// In place of nixd/lib/Eval/Launch.cpp: workers are fibers of the scheduler.
#include "nixd/Eval/Launch.h"
#include "sched/fakeproc.h"
#include <system_error>
using namespace nixd;
void nixd::startAttrSetEval(const std::string &Name, std::unique_ptr<AttrSetClientProc> &Worker) {
  fp::NextName = Name;
  try {
    Worker = std::make_unique<AttrSetClientProc>([]() { return 1; });
  } catch (const std::system_error &) {
  }
}
void nixd::startNixpkgs(std::unique_ptr<AttrSetClientProc> &W) { startAttrSetEval("nixpkgs", W); }
void nixd::startOption(const std::string &N, std::unique_ptr<AttrSetClientProc> &W) { startAttrSetEval(N, W); }
