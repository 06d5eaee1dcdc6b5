// P13 (positions and offsets) and P19 (paths and URIs) on the real library
// functions, against references written from the protocol and RFC 3986.
#include "lspserver/SourceCode.h"
#include "lspserver/URI.h"
#include "lspserver/Logger.h"
#include "mc/mc.h"
#include <llvm/Support/Path.h>
#include "nixf/Basic/Nodes/Basic.h"
#include "nixf/Parse/Parser.h"
#include "nixf/Sema/VariableLookup.h"
#include "Controller/Convert.h"

#include "checks/textref.h"

using namespace mc;
using namespace lspserver;
namespace {
struct Quiet : Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
} Q;

enum { CTexts, CPositions, COffsets, CRanges, CUris, CInvalid };

Str show(const Position &P) { return std::to_string(P.line) + ":" + std::to_string(P.character); }

void evalText(Ctx &X, const Str &T) {
  X.add(CTexts);
  bool Valid = tr::utf8(T);
  if (!Valid) X.add(CInvalid);
  auto Lines = tr::lines(T);
  size_t Len = lspLength(T);
  if (Valid && Len != tr::units(T)) X.fail("length", "lspLength " + std::to_string(Len) + ", " + std::to_string(tr::units(T)) + " code units");
  // every offset
  Position Last{-1, 0};
  for (size_t O = 0; O <= T.size() + 1; ++O) {
    X.add(COffsets);
    Position P = offsetToPosition(T, O);
    size_t Oc = std::min(O, T.size());
    if (P.line != tr::lineOf(T, Oc)) X.fail("offset-line", "offset " + std::to_string(O) + " is on line " + show(P));
    if (O <= T.size() && std::tie(P.line, P.character) < std::tie(Last.line, Last.character)) X.fail("offset-order", "offset " + std::to_string(O) + " at " + show(P) + " before " + show(Last));
    Last = P;
    if (!Valid || !tr::boundary(T, Oc)) continue;
    auto R = tr::position(T, Oc);
    if (P.line != R.first || P.character != R.second)
      X.fail("offset", "offset " + std::to_string(O) + " gives " + show(P) + ", is " + std::to_string(R.first) + ":" + std::to_string(R.second));
    for (bool Lenient : {false, true}) {
      auto Back = positionToOffset(T, P, Lenient);
      if (!Back) {
        llvm::consumeError(Back.takeError());
        X.fail("round-trip", "offset " + std::to_string(Oc) + " gives " + show(P) + " which is refused");
      } else if (*Back != Oc)
        X.fail("round-trip", "offset " + std::to_string(Oc) + " gives " + show(P) + " gives " + std::to_string(*Back));
    }
  }
  // every position
  for (int64_t L = -1; L <= (int64_t)Lines.size() + 1; ++L) {
    int64_t W = L >= 0 && L < (int64_t)Lines.size() ? Lines[L].size() : 1;
    for (int64_t Ch = -1; Ch <= W + 2; ++Ch)
      for (bool Lenient : {false, true}) {
        X.add(CPositions);
        Str At = std::to_string(L) + ":" + std::to_string(Ch) + (Lenient ? " lenient" : " strict");
        auto G = positionToOffset(T, Position{L, Ch}, Lenient);
        if (G && *G > T.size()) X.fail("outside", At + " gives " + std::to_string(*G));
        if (!Valid) {
          if (!G) llvm::consumeError(G.takeError());
          continue;
        }
        auto R = tr::offset(T, L, Ch, Lenient);
        if (R.empty() && G) X.fail("accepted", At + " gives " + std::to_string(*G));
        else if (!R.empty() && !G) X.fail("refused", At);
        else if (G && std::find(R.begin(), R.end(), *G) == R.end()) X.fail("position", At + " gives " + std::to_string(*G) + ", is " + std::to_string(R[0]));
        if (!G) llvm::consumeError(G.takeError());
      }
  }
}

void evalNodes(Ctx &X, const Str &T) {
  X.add(CTexts);
  std::vector<nixf::Diagnostic> D;
  auto A = nixf::parse(T, D);
  auto One = [&](const nixf::LexerCursorRange &R, const char *What) {
    X.add(CRanges);
    auto L = nixd::toLSPRange(T, R);
    auto B = tr::position(T, R.lCur().offset()), E = tr::position(T, R.rCur().offset());
    // the lexer may leave a range inside a multi-byte character it did not understand
    if (!tr::boundary(T, R.lCur().offset()) || !tr::boundary(T, R.rCur().offset())) return;
    if (L.start.line != B.first || L.start.character != B.second || L.end.line != E.first || L.end.character != E.second)
      X.fail("range", Str(What) + " at offsets " + std::to_string(R.lCur().offset()) + "-" + std::to_string(R.rCur().offset()) + " is sent as " + show(L.start) + "-" + show(L.end));
    for (auto &C : {R.lCur(), R.rCur()}) {
      auto P = tr::position(T, C.offset());
      auto N = nixd::toNixfPosition(T, Position{P.first, P.second});
      if (!(N == C.position()))
        X.fail("request-position", "position " + std::to_string(P.first) + ":" + std::to_string(P.second) + " becomes " + std::to_string(N.line()) + ":" + std::to_string(N.column()) + ", the lexer is at " + std::to_string(C.line()) + ":" + std::to_string(C.column()));
    }
    auto N = nixd::toNixfRange(T, L);
    if (!(N.begin() == R.lCur().position()) || !(N.end() == R.rCur().position())) X.fail("request-range", Str(What) + " does not convert back");
  };
  std::function<void(const nixf::Node *)> Walk = [&](const nixf::Node *N) {
    if (!N) return;
    One(N->range(), "node");
    for (auto *Ch : N->children()) Walk(Ch);
  };
  if (A) {
    Walk(A.get());
    nixf::VariableLookupAnalysis V(D);
    V.runOnAST(*A);
  }
  for (auto &Di : D) One(Di.range(), "diagnostic");
}

void evalPath(Ctx &X, const Str &P) {
  if (!llvm::sys::path::is_absolute(P)) return; // "//name"
  X.add(CUris);
  URI U = URI::createFile(P);
  Str S = U.toString();
  for (unsigned char C : S)
    if (C <= 32 || C >= 127 || strchr("\"<>\\^`{|}", C)) X.fail("encoding", "URI contains a character that must be encoded: " + S);
  Str Want = "file://";
  // RFC 8089: an absolute path, percent-encoded
  if (P.rfind("//", 0) != 0 && tr::decode(S.substr(0, 7)) != Want) X.fail("form", S);
  auto Q2 = URI::parse(S);
  if (!Q2) {
    llvm::consumeError(Q2.takeError());
    X.fail("unparsable", S);
    return;
  }
  if (!(*Q2 == U)) X.fail("components", S + " parses to scheme " + Q2->scheme().str() + " authority " + Q2->authority().str() + " body " + Q2->body().str());
  auto B = URI::resolve(*Q2, "");
  if (!B) {
    llvm::consumeError(B.takeError());
    X.fail("unresolvable", S);
  } else if (*B != P)
    X.fail("round-trip", P + " -> " + S + " -> " + *B);
  auto C = URI::create(P, "file");
  if (!C) {
    llvm::consumeError(C.takeError());
    X.fail("create", P);
  } else if (!(*C == U))
    X.fail("create", "create and createFile differ");
  // protocol level
  auto F = URIForFile::canonicalize(P, P);
  if (F.file() != P) X.fail("canonicalize", P + " -> " + F.file().str());
  URIForFile G;
  llvm::json::Path::Root R;
  if (!fromJSON(toJSON(F), G, R)) X.fail("json", "not read back: " + F.uri());
  else if (G.file() != P) X.fail("json", P + " -> " + F.uri() + " -> " + G.file().str());
  if (P.rfind("//", 0) != 0 && tr::decode(S) != "file://" + P) X.fail("text", S);
}

void evalUri(Ctx &X, const Str &T) {
  X.add(CUris);
  auto U = URI::parse(T);
  auto R = tr::uri(T);
  if (!U) {
    llvm::consumeError(U.takeError());
    if (R.Ok) X.fail("refused", T);
    X.outcome("refused");
    return;
  }
  if (!R.Ok) {
    X.fail("accepted", T);
    return;
  }
  X.outcome("scheme " + U->scheme().str() + " " + (U->authority().empty() ? "" : "authority"));
  if (U->scheme() != R.Scheme || U->authority() != R.Authority || U->body() != R.Body)
    X.fail("components", T + ": scheme " + U->scheme().str() + " authority " + U->authority().str() + " body " + U->body().str());
  Str S = U->toString();
  auto V = URI::parse(S);
  if (!V) {
    llvm::consumeError(V.takeError());
    X.fail("reprint", T + " -> " + S + " is not a URI");
  } else if (!(*V == *U))
    X.fail("reprint", T + " -> " + S + " has other components");
  for (unsigned char C : S)
    if (C <= 32 || C >= 127) X.fail("encoding", "printed URI has a raw character: " + S);
  // never crashes
  auto P = URI::resolve(T, "");
  if (!P) {
    llvm::consumeError(P.takeError());
    if (U->scheme() == "file" && !R.Body.empty() && R.Body[0] == '/') X.fail("unresolvable", T);
    return;
  }
  X.outcome("resolved");
  if (!llvm::sys::path::is_absolute(*P)) {
    X.fail("relative", T + " -> " + *P);
    return;
  }
  // a document named by this URI can be named back
  auto B = URI::resolve(URI::createFile(*P), "");
  if (!B) {
    llvm::consumeError(B.takeError());
    X.fail("stability", T + " -> " + *P + " -> nothing");
  } else if (*B != *P)
    X.fail("stability", T + " -> " + *P + " -> " + *B);
  Str Want = R.Authority.empty() ? R.Body : "//" + R.Authority + R.Body;
  if (*P != Want && "/" + *P != Want) X.fail("path", T + " -> " + *P);
}
} // namespace

int main(int argc, char **argv) {
  Str Id = argc > 1 ? argv[1] : "";
  Check C(Id, argc - 1, argv + 1);
  static LoggingSession LS(Q);
  C.Counters = {"texts", "positions", "offsets", "ranges", "uris", "invalid_texts"};
  bool Qk = C.quick();
  if (Id == "P13") {
    C.Rule = "every text of the spaces, every offset of it and every position in and around it, both modes";
    C.Spaces.push_back(seqSpace("unicode", "all sequences of <= N characters of 1, 2, 3 and 4 bytes and line breaks", {"a", "\n", "\r", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}, 0, Qk ? 6 : 8));
    C.Spaces.push_back(seqSpace("edges", "all sequences of <= N characters at the edges of the encodings", {"a", "\n", Str(1, 0), "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xef\xbb\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "e\xcc\x81", "\r\n", "\xe2\x80\xa8"}, 0, Qk ? 4 : 5));
    C.Spaces.push_back(seqSpace("bytes", "all sequences of <= N bytes, invalid UTF-8 included: only safety and order are claimed", {"a", "\n", "\xc3", "\xa9", "\xe2", "\x82", "\xf0", "\x9f", "\xff", "\xf8"}, 0, Qk ? 5 : 6));
    C.Spaces.push_back(seqSpace("nodes", "ranges of every node and diagnostic of all sequences of <= N tokens", {"a", " ", "\"\xc3\xa9${", "}\"", "\"\xf0\x9f\x98\x80\"", "\n", "/*\xe2\x82\xac*/", "#\xf0\x9f\x98\x80\n", "''\xf0\x9f\x98\x80\n''", "{", "}", "=", ";", "x.y", "\xc3\xa9"}, 1, Qk ? 5 : 6));
    C.Assumptions = {"The only encoding the server supports and announces (by default) is UTF-16.", "A line ends at LF, as the code documents; a lone CR does not end one.", "In the lenient mode a position inside a surrogate pair may give either end of the character."};
    C.Eval = [](Ctx &X, const Str &S, const Str &T) { S == "nodes" ? evalNodes(X, T) : evalText(X, T); };
  } else {
    C.Rule = "every path and URI text of the spaces";
    std::vector<Str> All;
    for (int I = 1; I < 256; ++I) All.push_back(Str(1, (char)I));
    C.Spaces.push_back(seqSpace("path-bytes", "all paths /XY over all bytes but NUL", All, 0, 2, "", "/"));
    C.Spaces.push_back(seqSpace("paths", "all sequences of <= N pieces", {"a", "/", ".", "..", "%", "%41", " ", "\\", "C:", "c", ":", "?", "#", "+", "~", "\xc3\xa9", "\n", "@", "&", "[", "-", "'"}, 0, Qk ? 4 : 5, "", "/"));
    C.Spaces.push_back(seqSpace("uris", "all sequences of <= N pieces", {"f", "file", ":", "//", "/", "a", "%", "%2", "%2F", "%2f", "%C3%A9", "%g0", "%00", " ", "?", "#", "\xc3", "C:", "1", "+", "%3a", "\\"}, 0, Qk ? 4 : 5));
    C.Spaces.push_back(seqSpace("file-uris", "file:// and <= N pieces", {":", "//", "/", "a", "%", "%2", "%2F", "%2f", "%C3%A9", "%g0", "%00", "%%", "%4", "%41", " ", "?", "#", "\xff", "C:", "%25", "\\"}, 0, Qk ? 4 : 5, "", "file://"));
    std::vector<Str> Hex;
    const char *H = "0123456789abcdefABCDEFgG%/";
    for (const char *P = H; *P; ++P) Hex.push_back(Str(1, *P));
    C.Spaces.push_back(seqSpace("percent", "all %XY and %XYZ over hexadecimal and other characters", Hex, 1, 3, "", "file:///%"));
    C.Assumptions = {"Paths of the network form //server/share keep their text; only their URI form is not prescribed."};
    C.Eval = [](Ctx &X, const Str &S, const Str &T) { S.rfind("path", 0) == 0 ? evalPath(X, T) : evalUri(X, T); };
  }
  C.HangS = 20;
  return C.run();
}
