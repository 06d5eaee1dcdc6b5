// The processes nixd starts, acting out what the check has written down.
//
//   (no argument)   an evaluation worker. Its script is in $PW_DIR/script: lines
//                   "ROLE POINT FAULT", where ROLE is the name of the file its
//                   standard error goes to (nixpkgs, nixos, ...) and POINT is s
//                   (at the start), rN or aN (before or after answering the Nth
//                   message).
//   fmt FILE        a formatter that performs the steps in FILE.
#include "ref/json.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <csignal>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

using Str = std::string;
static Str Dir, Role, Script;

static Str slurp(const Str &P) {
  Str R;
  int F = open(P.c_str(), O_RDONLY);
  char B[65536];
  ssize_t N;
  while (F >= 0 && (N = read(F, B, sizeof B)) > 0) R.append(B, N);
  if (F >= 0) close(F);
  return R;
}
static void append(const Str &P, const Str &T) {
  int F = open(P.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (F < 0) return;
  (void)!write(F, T.data(), T.size());
  close(F);
}
static bool put(int F, const Str &T) {
  for (size_t P = 0; P < T.size();) {
    ssize_t N = write(F, T.data() + P, T.size() - P);
    if (N <= 0) return false;
    P += N;
  }
  return true;
}
static Str framed(const Str &B) { return "Content-Length: " + std::to_string(B.size()) + "\r\n\r\n" + B; }
[[noreturn]] static void forever() {
  while (true) pause();
}
static Str quote(const Str &S) {
  Str R = "\"";
  for (char C : S) {
    if (C == '"' || C == '\\') R += '\\';
    R += C;
  }
  return R + "\"";
}

/// What a healthy worker answers.
static Str result(const Str &M, const rj::V *P) {
  if (M == "attrset/evalExpr") return "null";
  if (M == "attrset/attrpathInfo") return R"({"Meta":{"Type":7,"Location":{"uri":"file:///w/pkg.nix","range":{"start":{"line":3,"character":1},"end":{"line":3,"character":1}}}},"PackageDesc":{"Name":"wname","PName":"wp","Version":"1.0","Description":"wdesc","LongDescription":null,"Position":"/w/pos.nix:7","Homepage":"http://w"},"ValueDesc":null})";
  if (M == "attrset/attrpathComplete") return R"(["wone","wtwo"])";
  if (M == "attrset/optionInfo") return R"({"Description":"odesc","Declarations":[{"uri":"file:///w/opt.nix","range":{"start":{"line":1,"character":1},"end":{"line":1,"character":1}}}],"Definitions":[],"Example":null,"Default":null,"Type":{"Description":"td","Name":"tn"}})";
  if (M == "attrset/optionComplete") return R"([{"Name":"oone","Description":null}])";
  return "null";
}

/// Acts out a fault. Returns the text to send instead of the answer, if any.
static Str act(const Str &F, const Str &Id, const Str &Answer, const Str &Res) {
  auto msg = [&](const Str &R) { return framed("{\"jsonrpc\":\"2.0\",\"id\":" + Id + "," + R + "}"); };
  if (F == "exit0") _exit(0);
  if (F == "exit1") _exit(1);
  if (F == "kill") raise(SIGKILL);
  if (F == "abort") {
    signal(SIGABRT, SIG_DFL);
    abort();
  }
  if (F == "closeout") {
    close(1);
    char B[4096];
    while (read(0, B, sizeof B) > 0) {}
    forever();
  }
  if (F == "closein") {
    close(0);
    forever();
  }
  if (F == "closeboth") {
    close(0), close(1);
    forever();
  }
  if (F == "silent") forever();
  if (F == "partial") {
    put(1, Answer.substr(0, Answer.size() / 2));
    _exit(0);
  }
  if (F == "partialhead") {
    put(1, "Content-Le");
    _exit(0);
  }
  if (F == "partialsilent") {
    put(1, Answer.substr(0, Answer.size() / 2));
    forever();
  }
  if (F == "garbage") return "garbage\n\n\xff\xfe\r\n\r\n" + Answer;
  if (F == "badjson") return framed("{]") + Answer;
  if (F == "notobject") return framed("[1,2]") + framed("null") + framed("7") + Answer;
  if (F == "hugelen") {
    put(1, "Content-Length: 99999999999999999999\r\n\r\n");
    put(1, "Content-Length: 123456789012\r\n\r\n{}");
    _exit(0);
  }
  if (F == "wrongtype") return msg("\"result\":{\"x\":[1]}");
  if (F == "wrongtype2") return msg("\"result\":17");
  if (F == "null") return msg("\"result\":null");
  if (F == "none") return framed("{\"jsonrpc\":\"2.0\",\"id\":" + Id + "}");
  if (F == "error") return msg("\"error\":{\"code\":-1,\"message\":\"no\"}");
  if (F == "baderror") return msg("\"error\":{}");
  if (F == "twice") return Answer + Answer;
  if (F == "strayids") {
    Str R;
    for (Str I : {"-1", "\"x\"", "null", "99999", "1e400", "99999999999", "[]"}) R += framed("{\"jsonrpc\":\"2.0\",\"id\":" + I + ",\"result\":" + Res + "}");
    return R + Answer;
  }
  if (F == "calls") return framed(R"({"jsonrpc":"2.0","id":1,"method":"textDocument/hover","params":{}})") + framed(R"({"jsonrpc":"2.0","method":"exitt"})") + Answer;
  if (F == "exitnote") return Answer + framed(R"({"jsonrpc":"2.0","method":"exit"})");
  return Answer;
}

static int worker() {
  char B[65536];
  ssize_t N = readlink("/proc/self/fd/2", B, sizeof B);
  Str Err(B, N > 0 ? N : 0);
  Role = Err.substr(Err.rfind('/') + 1);
  append(Dir + "/pids", Role + " " + std::to_string(getpid()) + "\n");
  Script = slurp(Dir + "/script");
  auto fault = [&](const Str &Point) -> Str {
    for (size_t I = 0; I < Script.size();) {
      size_t J = std::min(Script.find('\n', I), Script.size());
      char R[64], P[64], F[64];
      if (sscanf(Script.substr(I, J - I).c_str(), "%63s %63s %63s", R, P, F) == 3 && Role == R && Point == P) return F;
      I = J + 1;
    }
    return "";
  };
  if (Str F = fault("s"); F != "") put(1, act(F, "1", framed("{}"), "null"));
  Str In;
  int Count = 0;
  while (true) {
    N = read(0, B, sizeof B);
    if (N <= 0) _exit(0);
    In.append(B, N);
    while (true) {
      auto H = In.find("\r\n\r\n");
      if (H == Str::npos) break;
      size_t L = strtoull(In.c_str() + strlen("Content-Length: "), nullptr, 10);
      if (In.size() < H + 4 + L) break;
      rj::V V;
      Str Why, Body = In.substr(H + 4, L);
      In.erase(0, H + 4 + L);
      if (!rj::read(Body, V, Why)) {
        append(Dir + "/errors", Role + " was sent what is not JSON: " + Body.substr(0, 200) + "\n");
        continue;
      }
      auto *M = V.get("method"), *I = V.get("id");
      append(Dir + "/log." + Role, Body + "\n");
      if (M && M->s == "exit") _exit(0);
      if (!M || !I) continue;
      ++Count;
      Str Id = rj::show(*I), Res = result(M->s, V.get("params"));
      Str Answer = framed("{\"jsonrpc\":\"2.0\",\"id\":" + Id + ",\"result\":" + Res + "}");
      Str F = fault("r" + std::to_string(Count));
      if (!put(1, F == "" ? Answer : act(F, Id, Answer, Res))) _exit(0);
      F = fault("a" + std::to_string(Count));
      if (F != "") put(1, act(F, "424242", "", "null"));
    }
  }
}

/// Steps of a formatter: R read to the end, h read 1000 bytes, w write a little,
/// W write 200 KiB, e and E the same on standard error, i close standard input,
/// o standard output, d standard error, c write what was read and the rest, t
/// wait for the file DIR/go, f make it, = write the file "out", 0..9 exit, k and
/// s kill itself, z live on. The Nth formatter performs the Nth line.
static int formatter(const Str &File) {
  Str S = slurp(File), In;
  for (int I = 0; S.find('\n') != Str::npos; ++I) {
    int F = open((Dir + "/claim" + std::to_string(I)).c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600);
    Str L = S.substr(0, S.find('\n'));
    S.erase(0, L.size() + 1);
    if (F < 0) continue;
    close(F);
    S = L;
    break;
  }
  char B[65536];
  auto all = [&] {
    ssize_t N;
    while ((N = read(0, B, sizeof B)) > 0) In.append(B, N);
  };
  for (char C : S) switch (C) {
    case 'R': all(); break;
    case 'h':
      for (size_t L = 1000; L;) {
        ssize_t N = read(0, B, L);
        if (N <= 0) break;
        In.append(B, N), L -= N;
      }
      break;
    case 'c': {
      ssize_t N;
      put(1, In), In.clear();
      while ((N = read(0, B, sizeof B)) > 0) put(1, Str(B, N));
      break;
    }
    case 'w': put(1, "w\n"); break;
    case 'W': put(1, Str(200 << 10, 'W')); break;
    case 'e': put(2, "err\n"); break;
    case 'E': put(2, Str(200 << 10, 'E')); break;
    case 'i': close(0); break;
    case 'o': close(1); break;
    case 'd': close(2); break;
    case '=': put(1, slurp(Dir + "/out")); break;
    case 'f': append(Dir + "/go", ""); break;
    case 't': {
      struct stat St;
      for (int I = 0; I < 3000 && stat((Dir + "/go").c_str(), &St); ++I) usleep(10000);
      break;
    }
    case 'k': raise(SIGKILL); break;
    case 's': raise(SIGSEGV); break;
    case 'z': forever();
    case '0' ... '9': _exit(C - '0');
    }
  _exit(0);
}

int main(int C, char **V) {
  if (C > 2 && !strcmp(V[1], "fmt")) {
    Dir = V[2];
    Dir.resize(Dir.rfind('/'));
    return formatter(V[2]);
  }
  const char *D = getenv("PW_DIR");
  if (!D) return 2;
  Dir = D;
  return worker();
}
