// P26: links of path literals. The documents and the files they denote are laid
// out in a scratch directory; what Nix resolves a path to is worked out again
// here, with readlink(2) and lstat(2).
#include "../ctl/session.h"
#include "../mc/mc.h"
#include "textref.h"
#include <dirent.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

using namespace mc;
using llvm::json::Object;
using llvm::json::Value;
namespace {
enum { CTexts, CRequests, CLinks, CNone };
cs::Session *S = nullptr;
Str Dir; // scratch directory
bool Quick;

bool isLink(const Str &P, Str &To) {
  char B[4096];
  ssize_t N = readlink(P.c_str(), B, sizeof B);
  if (N < 0) return false;
  To.assign(B, N);
  return true;
}
/// Absolute, without "." and "..", by spelling.
Str norm(const Str &P) {
  std::vector<Str> V;
  for (size_t I = 0; I < P.size();) {
    size_t J = std::min(P.find('/', I), P.size());
    Str C = P.substr(I, J - I);
    if (C == "..") {
      if (!V.empty()) V.pop_back();
    } else if (C != "" && C != ".") V.push_back(C);
    I = J + 1;
  }
  Str R;
  for (auto &C : V) R += "/" + C;
  return R.empty() ? "/" : R;
}
Str up(const Str &P) {
  auto I = P.rfind('/');
  return I == 0 || I == Str::npos ? "/" : P.substr(0, I);
}
Str follow(Str P) {
  Str To;
  for (int I = 0; I < 1024 && isLink(P, To); ++I) P = norm(To[0] == '/' ? To : up(P) + "/" + To);
  return P;
}
/// The file that importing Lit in Doc would read, as the real path; "" if none.
Str denotes(const Str &Doc, const Str &Lit) {
  Str P = Lit[0] == '/' ? Lit : Lit[0] == '~' ? Dir + "/home" + Lit.substr(1) : up(follow(Doc)) + "/" + Lit;
  P = follow(norm(P));
  struct stat St;
  if (!stat(P.c_str(), &St) && S_ISDIR(St.st_mode)) P += "/default.nix";
  if (stat(P.c_str(), &St) || S_ISDIR(St.st_mode)) return "";
  char B[PATH_MAX];
  return realpath(P.c_str(), B) ? B : "";
}
Str encode(const Str &P) {
  Str R = "file://";
  for (unsigned char C : P) {
    if (isalnum(C) || strchr("/-_.~", C)) R += C;
    else {
      char B[4];
      snprintf(B, 4, "%%%02X", C);
      R += B;
    }
  }
  return R;
}
/// The path of a file URI; "" if it is none.
Str decode(llvm::StringRef U) {
  if (!U.consume_front("file://") || !U.starts_with("/")) return "";
  Str R;
  for (size_t I = 0; I < U.size(); ++I) {
    unsigned char C = U[I];
    if (C == '%') {
      unsigned N = 0;
      if (I + 2 >= U.size() || U.substr(I + 1, 2).getAsInteger(16, N)) return "";
      R += char(N), I += 2;
    } else if (isalnum(C) || strchr("/-_.~:@!$&'()*+,;=", C)) R += C;
    else return "";
  }
  return R;
}
Str real(const Str &P) {
  char B[PATH_MAX];
  return realpath(P.c_str(), B) ? B : P;
}

const std::vector<Str> Docs = {"x.nix", "d/x.nix", "ld/x.nix", "a b%\xc3\xbc#?/x.nix", "l2.nix", "none/x.nix", "d/lup/x.nix"};
const std::vector<Str> Contexts = {"@", "import @", "[ @ @ ]", "[ @\n@ ]", "{ a = @; b.c = @; }", "x: @", "{ x ? @ }: x", "\"\xf0\x9f\x98\x80${@}\"", "(@)", "\n  /*\xc3\xa9 \xf0\x9f\x98\x80*/ @", "/*\xf0\x9f\x98\x80*/ @ {}", "let a = @; in [a @]", "if @ then @ else @", "let inherit (@) x; in x", "with @; x", "assert @; @", "a.${@}", "a.b or @", "!@", "@ == @", "./${@}", "''\n  ${@}\n  ''", "rec { a = @; x = { ... }: @; }", "a ? ${@}"};

/// A case is document|context|literal.
void eval(Ctx &X, const Str &Case) {
  size_t A = Case.find('|'), B = Case.find('|', A + 1);
  Str Doc = Dir + "/" + Docs[atoi(Case.c_str())], Lit = Case.substr(B + 1);
  const Str &Con = Contexts[atoi(Case.c_str() + A + 1)];
  bool Dynamic = Lit.find("${") != Str::npos;
  if (Lit[0] == '@') Lit = Dir + Lit.substr(1);
  Str T;
  std::vector<size_t> At;
  for (char C : Con)
    if (C == '@') At.push_back(T.size()), T += Lit;
    else T += C;
  X.add(CTexts);
  Str Uri = encode(Doc);
  S->open(Uri, T);
  S->reset();
  Str Exp = Dynamic ? "" : denotes(Doc, Lit);
  Str Head = esc(Doc.substr(Dir.size())) + ": " + esc(T) + ": ";
  auto rg = [&](size_t O) {
    auto P = tr::position(T, O), Q = tr::position(T, O + Lit.size());
    return cs::show(cs::range(P.first, P.second, Q.first, Q.second));
  };
  std::multiset<Str> Want, Got;
  if (Exp != "")
    for (auto O : At) Want.insert(rg(O));
  Value V = S->result("textDocument/documentLink", Object{{"textDocument", Object{{"uri", Uri}}}});
  X.add(CRequests);
  auto *L = V.getAsArray();
  if (!L) X.fail("answer", Head + cs::show(V));
  else
    for (auto &I : *L) {
      auto *O = I.getAsObject();
      auto Ta = O ? O->getString("target") : std::nullopt;
      if (!Ta || !O->get("range")) {
        X.fail("answer", Head + cs::show(I));
        continue;
      }
      Str P = decode(*Ta);
      if (P == "") X.fail("target-uri", Head + Ta->str());
      else if (Exp == "") X.fail("link-to-nothing", Head + "links to " + P);
      else if (real(P) != Exp) X.fail("target", Head + "links to " + P + ", not to " + Exp);
      struct stat St;
      if (P != "" && (stat(P.c_str(), &St) || S_ISDIR(St.st_mode))) X.fail("target-kind", Head + P + " is no file");
      Got.insert(cs::show(*O->get("range")));
    }
  if (Exp != "" && Got != Want) {
    Str M;
    for (auto &R : Got) M += R + " ";
    X.fail("ranges", Head + "linked are " + (M == "" ? "none" : M) + ", the literal denotes " + Exp);
  }
  X.add(Exp != "" ? CLinks : CNone);
  X.outcome(Exp == "" ? "none" : Exp.substr(Exp.find('/', 1)));
  if (!Dynamic) // an enclosing path is not constant
    for (auto O : At)
      for (size_t I : {size_t(0), Lit.size() / 2, Lit.size() - 1}) {
        auto P = tr::position(T, O + I);
        Value D = S->result("textDocument/definition", S->at(Uri, P.first, P.second));
        X.add(CRequests);
        std::vector<const Value *> Ls;
        if (auto *Ar = D.getAsArray())
          for (auto &E : *Ar) Ls.push_back(&E);
        else if (D.getAsObject()) Ls.push_back(&D);
        Str Where = "definition at " + std::to_string(O + I) + ": ";
        if (Exp == "" ? !Ls.empty() : Ls.size() != 1) X.fail("definition", Head + Where + cs::show(D));
        for (auto *E : Ls)
          if (auto *Ob = E->getAsObject(); Exp != "")
            if (auto U = Ob ? Ob->getString("uri") : std::nullopt; !U || real(decode(*U)) != Exp) X.fail("definition", Head + Where + cs::show(*E) + ", not " + Exp);
      }
  S->close(Uri);
  S->reset();
  if (S->Thrown != "") X.fail("exception", Head + S->Thrown), S->Thrown = "";
}

void put(const Str &P) {
  FILE *F = fopen((Dir + "/" + P).c_str(), "w");
  if (F) fputs("1\n", F), fclose(F);
}
void layout() {
  auto md = [](const char *P) { mkdir((Dir + "/" + P).c_str(), 0755); };
  auto ln = [](const char *To, const char *P) { (void)!symlink(To, (Dir + "/" + P).c_str()); };
  for (auto *P : {"d", "d/s", "e", "w", "w/default.nix", "a b%\xc3\xbc#?", "a b%\xc3\xbc#?/d", "home", "home/d", "far", "far/t", "far/t/d", "~", "d/~"}) md(P);
  for (auto *P : {"f.nix", "d/f.nix", "d/default.nix", "d/s/default.nix", "d/x.nix", "x.nix", "a b%\xc3\xbc#?/x.nix", "a b%\xc3\xbc#?/f.nix", "a b%\xc3\xbc#?/d/default.nix", "home/f.nix", "home/d/default.nix", "far/f.nix", "far/default.nix", "far/t/x.nix", "far/t/f.nix", "far/t/default.nix", "far/t/d/f.nix", "d/real.nix", "~/f.nix", "e/default"}) put(P);
  ln("f.nix", "l.nix"), ln("far/t", "ld"), ln("d/real.nix", "l2.nix"), ln("nowhere", "broken"), ln("loop", "loop"), ln("../far/t", "d/lup"), ln("ld", "lld"), ln("l.nix", "ll.nix");
  ln("../f.nix", "e/default.txt");
}
void wipe(const Str &P) {
  struct stat St;
  if (lstat(P.c_str(), &St)) return;
  if (S_ISDIR(St.st_mode)) {
    if (DIR *D = opendir(P.c_str())) {
      while (auto *E = readdir(D))
        if (Str N = E->d_name; N != "." && N != "..") wipe(P + "/" + N);
      closedir(D);
    }
    rmdir(P.c_str());
  } else unlink(P.c_str());
}
} // namespace

int main(int argc, char **argv) {
  Check C(argv[1], argc - 1, argv + 1);
  Quick = C.quick();
  C.BudgetS = Quick ? 300 : 2000;
  C.Counters = {"texts", "requests", "linked", "denoting_nothing"};
  char Tmp[] = "/tmp/p26.XXXXXX";
  if (!mkdtemp(Tmp)) return 2;
  char B[PATH_MAX];
  Dir = realpath(Tmp, B) ? B : Tmp;
  layout();
  setenv("HOME", (Dir + "/home").c_str(), 1);
  C.WorkerInit = [] {
    S = new cs::Session;
    S->initialize();
    S->reset();
  };
  C.Rule = "Documents at every stated place in a scratch directory of files, directories and symbolic links hold every path literal of the stated segments; the links and the definition answered by the real Controller are compared with what Nix resolves the literal to.";
  C.Assumptions = {"search paths (<name>) are no path literals", "targets are compared as files: a link may spell its target in any way", "paths containing interpolations are not constant", "HOME is the home directory"};
  std::vector<Str> Segs = {".", "..", "f.nix", "d", "e", "w", "ld", "l.nix", "nn", "default.nix"};
  std::vector<Str> Extra = {"lld", "ll.nix", "l2.nix", "broken", "loop", "s", "far", "t", "lup", "...", "f", "F.nix", "x.nix", "default", "default.txt"};
  auto lits = [](const std::vector<Str> &Sg, int Min, int Max, const std::vector<Str> &Pre) {
    std::vector<Str> R;
    std::function<void(Str, int)> Go = [&](Str P, int N) {
      if (N >= Min) R.push_back(P);
      if (N == Max) return;
      for (auto &Z : Sg) Go(P + (N ? "/" : "") + Z, N + 1);
    };
    for (auto &P : Pre) Go(P, 0);
    std::vector<Str> Out;
    for (auto &Z : R) // a path needs a slash, and a home path no dots alone
      if (Z.find('/') != Str::npos && Z.back() != '/') Out.push_back(Z);
    return Out;
  };
  auto cases = [](const std::vector<Str> &L, const std::vector<int> &Con) {
    std::vector<Str> R;
    for (size_t D = 0; D < Docs.size(); ++D)
      for (int K : Con)
        for (auto &Z : L) R.push_back(std::to_string(D) + "|" + std::to_string(K) + "|" + Z);
    return R;
  };
  std::vector<Str> Pre = {"./", "../", "", "@/", "~/"};
  C.Spaces.push_back(listSpace("segments", "paths of up to 3 segments at every place", cases(lits(Segs, 1, 3, Pre), {0})));
  auto All = Segs;
  All.insert(All.end(), Extra.begin(), Extra.end());
  C.Spaces.push_back(listSpace("names", "paths of up to 2 segments of all kinds", cases(lits(All, 1, 2, Pre), {0})));
  std::vector<int> Ks;
  for (size_t I = 0; I < Contexts.size(); ++I) Ks.push_back(I);
  C.Spaces.push_back(listSpace("contexts", "the places of a program a literal may stand at", cases({"./f.nix", "d/..", "./nn", "../f.nix", "~/d", "@/l.nix", "./${x}", "./f${\"\"}.nix", "./.", "/.", "/..", "../../../../../../../../../../..", "./d/../f.nix", "./ld/.././ld/f.nix"}, Ks)));
  if (!Quick) C.Spaces.push_back(listSpace("deep", "paths of 4 segments", cases(lits({".", "..", "f.nix", "d", "ld", "l.nix", "lld", "s"}, 4, 4, Pre), {0})));
  C.Eval = [](Ctx &X, const Str &, const Str &T) { eval(X, T); };
  int R = C.run();
  if (Dir.rfind("/tmp/p26.", 0) == 0) wipe(Dir);
  return R;
}
