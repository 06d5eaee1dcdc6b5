// P12: nixf-tidy. The real main() runs in a forked child per case, reading the
// text from its standard input and writing to its standard output.
#include "checks/nixfutil.h"
#include "checks/nixspaces.h"
#include "ref/json.h"

#include <nixf/Sema/VariableLookup.h>

#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace mc;
int tidy_main(int Argc, const char *Argv[]);

namespace {
bool utf8(const Str &S) {
  rj::V V;
  Str W;
  Str Q = "\"";
  for (char C : S)
    if (C == '"' || C == '\\' || (unsigned char)C < 0x20) Q += 'x';
    else Q += C;
  return rj::read(Q + "\"", V, W);
}
rj::V num(long long N) {
  rj::V V;
  V.k = rj::Num;
  V.s = std::to_string(N);
  return V;
}
rj::V str(const Str &S) {
  rj::V V;
  V.k = rj::Str;
  V.s = utf8(S) ? S : "\x01inv";
  return V;
}
rj::V obj(std::vector<std::pair<Str, rj::V>> O) {
  rj::V V;
  V.k = rj::Obj;
  V.o = std::move(O);
  return V;
}
rj::V arr(std::vector<rj::V> A) {
  rj::V V;
  V.k = rj::Arr;
  V.a = std::move(A);
  return V;
}
rj::V cur(nixf::LexerCursor C) { return obj({{"line", num(C.line())}, {"column", num(C.column())}, {"offset", num(C.offset())}}); }
rj::V range(nixf::LexerCursorRange R) { return obj({{"lCur", cur(R.lCur())}, {"rCur", cur(R.rCur())}}); }
template <class D> std::vector<std::pair<Str, rj::V>> part(const D &X) {
  std::vector<rj::V> Args, Tags;
  for (auto &A : X.args()) Args.push_back(str(A));
  for (auto T : X.tags()) Tags.push_back(num((int)T));
  return {{"args", arr(Args)}, {"tag", arr(Tags)}, {"range", range(X.range())}, {"kind", num(X.kind())}, {"sname", str(X.sname())}, {"message", str(X.message())}};
}
rj::V expected(const std::vector<nixf::Diagnostic> &Ds) {
  rj::V R = arr({});
  for (auto &D : Ds) {
    auto O = part(D);
    O.push_back({"severity", num(nixf::Diagnostic::severity(D.kind()))});
    std::vector<rj::V> Ns, Fs;
    for (auto &N : D.notes()) Ns.push_back(obj(part(N)));
    for (auto &F : D.fixes()) {
      std::vector<rj::V> Es;
      for (auto &E : F.edits()) Es.push_back(obj({{"range", range(E.oldRange())}, {"newText", str(Str(E.newText()))}}));
      Fs.push_back(obj({{"edits", arr(Es)}, {"message", str(F.message())}}));
    }
    O.push_back({"notes", arr(Ns)});
    O.push_back({"fixes", arr(Fs)});
    R.a.push_back(obj(O));
  }
  return R;
}
/// Same value; a string that cannot be written as JSON only has to be a string.
bool same(const rj::V &E, const rj::V &G, Str At, Str &Why) {
  auto no = [&](Str M) { return Why = At + ": " + M + ", expected " + rj::show(E).substr(0, 300) + " got " + rj::show(G).substr(0, 300), false; };
  if (E.k != G.k) return no("type");
  if (E.k == rj::Str) return E.s == "\x01inv" || E.s == G.s || no("string");
  if (E.k == rj::Num) return E.s == G.s || no("number");
  if (E.k == rj::Arr) {
    if (E.a.size() != G.a.size()) return no("length");
    for (size_t I = 0; I < E.a.size(); ++I)
      if (!same(E.a[I], G.a[I], At + "[" + std::to_string(I) + "]", Why)) return false;
  }
  if (E.k == rj::Obj) {
    if (E.o.size() > G.o.size()) return no("keys");
    for (auto &[K, V] : E.o) {
      auto *W = G.get(K);
      if (!W) return no("no key " + K);
      if (!same(V, *W, At + "." + K, Why)) return false;
    }
  }
  return true;
}
template <class D> void fmt(Ctx &X, const D &P, const char *Kind) {
  size_t N = 0;
  Str M = P.message(), E;
  for (size_t I = 0; I < M.size(); ++I)
    if (M.compare(I, 2, "{}") == 0) {
      if (N < P.args().size()) E += P.args()[N];
      ++N, ++I;
    } else E += M[I];
  if (N != P.args().size()) X.fail(Str("arguments ") + P.sname(), Str(Kind) + " " + P.sname() + " has " + std::to_string(P.args().size()) + " arguments for \"" + M + "\"");
  else if (P.format() != E) X.fail(Str("format ") + P.sname(), "formatted as " + P.format() + " instead of " + E);
}

void p12(Ctx &X, const Str &Case) {
  int Flags = Case[0] - '0';
  Str T = Case.substr(1);
  std::vector<nixf::Diagnostic> Ds;
  auto AST = nixf::parse(T, Ds);
  if (Flags & 1) {
    nixf::VariableLookupAnalysis V(Ds);
    if (AST) V.runOnAST(*AST);
  }
  X.add(0);
  X.add(1, Ds.size());
  for (auto &D : Ds) {
    fmt(X, D, "diagnostic");
    for (auto &N : D.notes()) fmt(X, N, "note");
  }
  if (Flags & 4) { // only the part that needs no process
    return;
  }
  int P[2];
  if (pipe(P)) abort();
  int In = memfd_create("in", 0);
  if (write(In, T.data(), T.size()) != (ssize_t)T.size()) abort();
  lseek(In, 0, SEEK_SET);
  pid_t Pid = fork();
  if (!Pid) {
    dup2(In, 0);
    dup2(P[1], 1);
    int Nul = open("/dev/null", O_WRONLY);
    dup2(Nul, 2);
    close(P[0]);
    close(P[1]);
    std::vector<const char *> A = {"nixf-tidy"};
    if (Flags & 1) A.push_back("--variable-lookup");
    if (Flags & 2) A.push_back("--pretty-print");
    A.push_back(nullptr);
    int R = tidy_main(A.size() - 1, A.data());
    std::cout.flush();
    fflush(stdout);
    _exit(R);
  }
  close(P[1]);
  close(In);
  Str O;
  char B[65536];
  for (ssize_t N; (N = read(P[0], B, sizeof B)) > 0;) O.append(B, N);
  close(P[0]);
  int St = 0;
  waitpid(Pid, &St, 0);
  X.add(2);
  if (!WIFEXITED(St) || WEXITSTATUS(St)) return X.fail("exit", "nixf-tidy ends with status " + std::to_string(St) + " after printing " + esc(O.substr(0, 200)));
  rj::V G;
  Str Why;
  if (!rj::read(O, G, Why)) return X.fail("json", "not valid JSON: " + Why + ": " + esc(O.substr(0, 400)));
  if (O.empty() || O.back() != '\n') X.fail("line", "the output does not end with a line break");
  X.outcome(std::to_string(Ds.size()));
  if (!same(expected(Ds), G, "", Why)) X.fail("differs", Why);
}
} // namespace

int main(int argc, char **argv) {
  Str Id = argv[1];
  Check C(Id, argc - 1, argv + 1);
  bool Q = C.quick();
  C.BudgetS = Q ? 300 : 3000;
  C.HangS = 20;
  C.Counters = {"texts", "diagnostics", "program_runs"};
  C.Rule = "For every text of each space and each flag setting the real main() of nixf-tidy runs in a process of its own; its output is read by an independent strict JSON reader and compared, key by key, with the diagnostics the library returns.";
  auto FT = sp::tokensFull();
  auto add = [&](Space S) { C.Spaces.push_back(std::move(S)); };
  auto flags = [&](Str Name, Str Rule, std::vector<Str> L, Str Fs) {
    auto P = std::make_shared<std::vector<Str>>(std::move(L));
    uint64_t N = P->size(), K = Fs.size();
    add({Name, Rule, N * K, [=](uint64_t I) { return Fs[I / N] + (*P)[I % N]; }});
  };
  std::vector<Str> R;
  R.push_back("");
  for (auto &T : FT) R.push_back(T);
  for (auto &[A, B] : sp::contexts())
    for (auto &T : FT) R.push_back(A + T + B);
  flags("contexts1", "single tokens in each construct, every flag setting", R, "0123");
  R.clear();
  for (auto &T : FT)
    for (auto &U : FT) R.push_back(T + " " + U);
  flags("pairs", "pairs of tokens", R, Q ? "1" : "0123");
  R.clear();
  for (auto &[A, B] : sp::contexts())
    for (auto &T : FT)
      for (auto &U : FT) R.push_back(A + T + " " + U + B);
  flags("contexts2", "pairs of tokens in each construct: arguments and messages", R, "5");
  if (!Q) flags("contexts2run", "pairs of tokens in each construct", R, "1");
  R.clear();
  auto Items = sp::bindItems();
  for (auto *W : {"{ %s }", "rec { %s }", "let %s in 1", "let { %s body = b; }"})
    for (auto &I : Items)
      for (auto &J : Items) {
        Str S = W;
        S.replace(S.find("%s"), 2, I + " " + J);
        R.push_back(S);
      }
  flags("bindings", "all pairs of bindings in sets and lets", R, "1");
  R.clear();
  std::vector<Str> Bytes = {"\xff", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc3", "\x01", "\x7f", Str(1, '\0'), "\\\"", "\\\\", "\\n", "\n", "\r\n", "\t", "\b", "\f", "</", "\xe2\x80\xa8"};
  for (auto &B : Bytes)
    for (auto &D : Bytes)
      for (auto *W : {"{ \"%\" = 1; \"%\" = 2; }", "{ a.\"%\".b = 1; a.\"%\" = 2; }", "let \"%\" = 1; in 2", "%", "\"%", "/*%", "let { body = \"%\"; }", "builtins.\"%\"", "rec { inherit \"%\"; }", "let { body = x: % ; }"}) {
        Str S;
        for (const char *P = W; *P; ++P) S += *P == '%' ? B + D : Str(1, *P);
        R.push_back(S);
      }
  flags("bytes", "pairs of unusual bytes in names, strings and comments", R, Q ? "1" : "0123");
  C.Eval = [](Ctx &X, const Str &, const Str &T) { p12(X, T); };
  return C.run();
}
