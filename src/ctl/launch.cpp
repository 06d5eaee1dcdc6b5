// In place of nixd/lib/Eval/Launch.cpp: the worker process runs the check's own
// function instead of executing nixd-attrset-eval.
#include "ctl/session.h"
using namespace nixd;
void nixd::startAttrSetEval(const std::string &Name, std::unique_ptr<AttrSetClientProc> &Worker) {
  Worker = std::make_unique<AttrSetClientProc>([&Name]() { return cs::WorkerName = Name, cs::workerMain(); });
}
void nixd::startNixpkgs(std::unique_ptr<AttrSetClientProc> &W) { startAttrSetEval("nixpkgs", W); }
void nixd::startOption(const std::string &N, std::unique_ptr<AttrSetClientProc> &W) { startAttrSetEval(N, W); }
