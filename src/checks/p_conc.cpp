// P20: publications under all schedules.
#include "checks/concutil.h"

int main(int argc, char **argv) {
  Check C(argv[1], argc - 1, argv + 1);
  Quick = C.quick();
  C.Counters = {"scenarios", "schedules", "steps", "answers_compared", "publications_compared"};
  C.BudgetS = Quick ? 600 : 6000;
  C.HangS = 120;
  C.WorkerInit = [] { cs::quiet(); };
  auto seqs = [](const std::vector<Str> &V, unsigned Min, unsigned Max) {
    Space S = seqSpace("", "", [&] {
      auto W = V;
      for (auto &Z : W) Z += " ";
      return W;
    }(), Min, Max);
    std::vector<Str> R;
    for (uint64_t I = 0; I < S.Size; ++I) R.push_back(S.At(I));
    return R;
  };
  if (C.Id == "P20") {
    C.Rule = "The real Controller with its thread pool, the input threads of its workers and the workers run under a controlled scheduler; for every stated history of notifications and configurations, every schedule with at most the stated number of preemptions is executed, and the last publications are compared with the diagnostics of the last texts.";
    C.Assumptions = {"threads switch at locks, semaphores, posted work and reads and writes; data races between these points are not looked for", "a republication because of a changed configuration needs no version"};
    std::vector<Str> L;
    auto add = [&](const Str &Pre, const std::vector<Str> &S) {
      for (auto &T : S)
        if (T.find('K') != Str::npos) L.push_back(Pre + T);
    };
    add("2:" + Begin + ";", seqs({"Oa1", "Ca2", "Xa", "K1", "K0"}, 1, 3));
    add("2:" + Begin + " Oa1;", seqs({"Ca2", "Ca0", "Ca3", "Xa", "Da", "Oa4", "K1", "K0", "K4"}, 1, Quick ? 2 : 3));
    add("2:" + Begin + " Oa1 Ob2;", seqs({"Ca2", "Cb1", "Xa", "K1"}, 1, 3));
    add("1:" + Begin + ";", seqs({"Oa1", "Ob1", "Ca2", "Xa", "K1", "K0"}, 4, Quick ? 4 : 5));
    if (!Quick) add("3:" + Begin + " Oa1;", seqs({"Ca2", "Xa", "K1", "K0"}, 1, 3));
    C.Spaces.push_back(listSpace("schedules", "histories of notifications and configurations (first the bound on preemptions), under every schedule", L));
  }
  C.Eval = [](Ctx &X, const Str &Sp, const Str &T) { evalScen(X, T); };
  return C.run();
}
